"""Shared parts of the checks: running, parsing and comparing outputs."""
import hashlib
import json
import re

from . import world, gen, model
from .term import Screen, PLAIN, strip


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Ctx:
    """Collects what one scenario did (for the evidence) while it is evaluated."""

    def __init__(self):
        self.runs = 0
        self.clock = 0.0
        self.faults = {}
        self.probes = {}
        self.hash = hashlib.sha256()
        self.nontrivial = False
        self.first = None

    def note(self, res):
        self.runs += 1
        self.clock += res['clock']
        for k, v in res['fires'].items():
            self.faults[k] = self.faults.get(k, 0) + v
        self.hash.update(repr(res['log']).encode() + res['out'] + res['err'] + repr(res['status']).encode())
        if self.first is None:
            self.first = res

    def hit(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def run(self, spec):
        res = world.run(spec)
        self.note(res)
        if res['stop']:
            raise Violation('no-termination', f'{res["stop"]}; argv {spec["argv"]}')
        return res

    def history(self, specs):
        out = world.run_history(specs)
        for r in out:
            self.note(r)
        return out


def short(x, n=160):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '…'


def need(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg)


def ok(res, cls='failure'):
    need(res['status'] == 0 and not res['err'], cls,
         f'status {res["status"]}, stderr {short(res["err"])}')


def decode(b, cls='encoding'):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError as e:
        raise Violation(cls, f'output is not valid UTF-8: {e}')


LAST_EMPTY = re.compile('(?:\\A|\n)(?:\x1b\\[[0-9;]*m)*\n\\Z')


def body(out):
    """Output without the empty line which is printed at exit."""
    t = decode(out)
    return t[:-1] if LAST_EMPTY.search(t) else t


def screen(res):
    return Screen(body(res['out']))


TRAILER = re.compile('\n?(?:\x1b\\[31mTraceback[\\s\\S]*|Run the app[^\n]*\n?)?\n?\\Z')


def lcp(a, b):
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return n
    lo, hi = 0, n
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if a[:mid] == b[:mid]:
            lo = mid
        else:
            hi = mid - 1
    return lo


def is_cut_notice(s):
    """The notice itself may be cut by a failure as well."""
    return len(s) < 80 and any(n.startswith(t) for n in NOTICES for t in (s, s[1:] if s[:1] == '\n' else s))


NOTICES = ("Run the app with '\x1b[1m--debug\x1b[22m' argument to see the details\n\n", '\x1b[31mTraceback (most recent call last):\n')


def prefix_plus_notice(out, ref):
    """Length of the prefix of ref that starts out, if the rest of out is only
    the error notice; None otherwise.  Prefers the longest prefix."""
    p = lcp(out, ref)
    for k in range(p, max(-1, p - 16), -1):
        if TRAILER.match(out, k) or is_cut_notice(out[k:]):
            return k
    for m in re.finditer('\n?(?:\x1b\\[31mTraceback|Run the app)', out[:p + 1]):
        if TRAILER.match(out, m.start()):
            return m.start()
    return None


# -------------------------------------------------------------------- parsing

NUM = re.compile(' *(\\d+)│')


def text_content(line, numbered):
    """(number or None, cells)"""
    if not numbered:
        return None, list(zip(line.chars, line.styles))
    m = NUM.match(line.text)
    need(m, 'line-prefix', f'no line number: {short(line.text)}')
    return int(m.group(1)), list(zip(line.chars[m.end():], line.styles[m.end():]))


HEX = re.compile('(?: [0-9a-f]{2})+')


class Row:
    __slots__ = ('prefix', 'data', 'hexst', 'pad', 'chars', 'chst', 'width', 'total')


def parse_row(line, offsets):
    r = Row()
    t = line.text
    r.width = len(t)
    r.total = False
    if offsets:
        i = t.find('│')
        need(i >= 0, 'row-format', f'no offset column: {short(t)}')
        r.prefix = t[:i]
        base = i + 1
    else:
        r.prefix = None
        base = 0
    rest = t[base:]
    if offsets and not rest:
        r.total = True
        return r
    m = HEX.match(rest)
    need(m, 'row-format', f'no hex column: {short(t)}')
    n = len(m.group()) // 3
    tail = rest[3 * n:]
    need(len(tail) >= n + 2, 'row-format', f'char column shorter than hex column ({n} bytes): {short(t)}')
    mid, chars = tail[:len(tail) - n], tail[len(tail) - n:]
    if offsets:
        good = mid == ' ' * (len(mid) - 1) + '│'
    else:
        good = mid == ' ' * len(mid)
    need(good and (len(mid) - 2) % 3 == 0, 'row-format',
         f'{n} hex bytes do not match the char column: {short(t)}')
    r.pad = (len(mid) - 2) // 3
    r.data = bytes.fromhex(m.group())
    st = line.styles[base:]
    r.hexst = [(st[3 * k + 1], st[3 * k + 2]) for k in range(n)]
    r.chars = chars
    r.chst = st[len(rest) - n:]
    return r


def offset_value(prefix, o):
    p = prefix.strip()
    try:
        if o['decimal_offsets']:
            return int(p, 10) if re.fullmatch('[0-9]+', p) else None
        return int(p, 16) if re.fullmatch('0x[0-9a-f]+', p) else None
    except ValueError:
        return None


def shows_offsets(o):
    return bool(o['D']) or not o['no_offsets']


def parse_dump(lines, o):
    offs = shows_offsets(o)
    return [parse_row(ln, offs) for ln in lines]


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b)) if len(a) != len(b) else None


def same_screen(a, b, cls, what):
    """Both screens show the same cells (characters and styles)."""
    for i, (x, y) in enumerate(zip(a.lines, b.lines)):
        if x.chars != y.chars:
            raise Violation(cls, f'{what}: line {i}: {short(x.text)} instead of {short(y.text)}')
        if x.styles != y.styles:
            k = first_diff(x.styles, y.styles)
            raise Violation(cls, f'{what}: line {i}: style of char {k} {x.chars[k]!r} is {sty(x.styles[k])} instead of {sty(y.styles[k])}: {short(x.text)}')
        if (x.end is None) != (y.end is None):
            raise Violation(cls, f'{what}: line {i}: line break differs')
    need(len(a.lines) == len(b.lines), cls, f'{what}: {len(a.lines)} lines instead of {len(b.lines)}')


def sty(s):
    return f'[fg={s[0] or "-"} bg={s[1] or "-"} {",".join(sorted(s[2])) or "-"}]'


def dumps(x):
    return json.dumps(x, sort_keys=True)
