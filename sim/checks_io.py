"""Properties of the application: C01..C18."""
import errno
import os
import re

from . import gen, model
from .common import *
from .term import PLAIN, Screen, strip

DEFAULT_O = dict(mode='t', m=0, focus=[], ignore=[], color_markers=False, no_separators=False, no_line_numbers=False,
                 w=None, decode=False, decimal_offsets=False, no_offsets=False, f=None, L=None, B=None, D=0, long=False)


def mk(o, inp, src, plan, **kw):
    return dict(o=o, inp=inp, src=src, plan=plan, **kw)


def base_spec(sc, **kw):
    o = dict(sc['o'])
    spec = gen.spec(o, sc['inp'], sc['src'], sc['plan'])
    for k in ('term', 'out', 'tail', 'open', 'inject'):
        if k in sc and sc[k] is not None:
            spec[k] = sc[k]
    spec.update(kw)
    return spec


def data_of(sc):
    return b''.join(bytes.fromhex(h) * n for h, n in sc['inp'])


def canonical(sc, **ov):
    """Spec of the fault-free run with everything delivered at once from a file."""
    o = dict(sc['o'], **ov)
    n = gen.size_of(sc['inp'])
    o['f'] = max(n + 1, 4096)
    s = gen.spec(o, sc['inp'], 'file', [])
    if sc.get('term'):
        s['term'] = sc['term']
    return s


def some_input(r, big=.12, maxlen=160, boost=(), chunk=4096):
    x = r.random()
    if x < big:
        return gen.boundary_input(r, chunk, boost)
    if x > 1 - big / 2:
        return gen.long_input(r, boost)
    return gen.small_input(r, maxlen, boost)


def huge_run(r, o):
    """More than 64 KiB of one class read at once."""
    o['f'], o['m'], o['D'] = r.choice([1 << 17, 1 << 18, 1 << 20]), 0, 0
    if o['w'] is not None: o['w'] = r.choice([1024, 4096, 70000])
    return [[gen.body(r, 60, gen.swarm(r)).hex() or '31', 1], [r.choice(['61', '7e', 'ff', '80', '00', '20', '09', '0d', '08', '7f', '01', '0b']), r.choice([65535, 65536, 70000, 131072, 140000])],
            [gen.body(r, 60, gen.swarm(r)).hex() or '31', 1]]


def tune(r, o, inp):
    """Keep single runs cheap."""
    n = gen.size_of(inp)
    if n > 1500 and o['w'] is not None and 0 < o['w'] < 8:
        o['w'] = r.choice([8, 16, 24])
    if n > 8000 and o['color_markers'] and gen.is_binary(o):    # every row repeats the codes of a huge SGR
        o['w'] = r.choice([512, 1024, 4096])
    return o


def small_f(r, n):
    if n > 1500:
        return r.choice([None, None, 4096, 1000, 4095, 4097, 8192, 2048, *([64, 100, 256, 500] if n < 6000 else [])])
    return r.choice([None, None, 1, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64])


def sched(r, inp, o=None, stalls=True):
    return gen.plan(r, gen.size_of(inp), 'any', stalls)


class Check:
    level = 'exploration'
    quick = 600
    thorough = 20000
    components = dict(real=['kolombos (all modules)', 'pytermor (all modules)', 'argparse', 'io.BufferedReader/TextIOWrapper/BufferedWriter'],
                      stub=['raw input device', 'raw output device', 'open()', 'terminal size', 'interpreter exit (flush of standard streams)'])
    assumptions = []

    def gen(self, r, i, tier): raise NotImplementedError
    def evaluate(self, sc, cx): raise NotImplementedError
    def describe(self, sc):
        return sc


# ------------------------------------------------------------------------ C01

class C01(Check):
    id = 'C01'
    quick, thorough = 1200, 48000
    rule = ('random token mixes with material placed at read boundaries x random options x random read size, partition into short reads and '
            'source kind; non-trivial = the scheduled run made at least two read requests that returned data, or short reads happened')

    def gen(self, r, i, tier):
        o = gen.options(r)
        chunk = r.choice([16, 64, 4096])
        inp = some_input(r, .3, boost=r.sample(['csi', 'sgr', 'nf', 'utf8', 'badutf', 'cut', 'esc', 'binrun', 'lf'], 3), chunk=chunk)
        n = gen.size_of(inp)
        o['f'] = chunk if chunk < 4096 and n > chunk and r.random() < .5 else small_f(r, n)
        tune(r, o, inp)
        return mk(o, inp, gen.source(r), sched(r, inp), term=[[0, r.choice([80, 80, 40, 27, 120, 300])]])

    def evaluate(self, sc, cx):
        a = cx.run(base_spec(sc))
        b = cx.run(canonical(sc))
        cx.nontrivial = sum(1 for e in a['log'] if e[1] == 'got' and e[3] > 0) >= 2 or 'in:short' in cx.faults
        if any(e[1] == 'got' and e[3] > 0 for e in a['log']) and model_tail_split(a, data_of(sc)):
            cx.hit('a sequence was split by a read boundary')
        need(a['status'] == b['status'], 'delivery-status', f'status {a["status"]} ({short(a["err"])}) instead of {b["status"]} ({short(b["err"])})')
        same_screen(Screen(decode(a['out'])), Screen(decode(b['out'])), 'delivery-output', 'scheduled delivery vs. single delivery')


def model_tail_split(res, data):
    """Did any read boundary fall inside a multibyte token?"""
    cuts, pos = set(), 0
    for e in res['log']:
        if e[1] == 'got' and e[3] > 0:
            pos += e[3]
            cuts.add(pos)
    p = 0
    for kind, raw in model.tokenize(data):
        if len(raw) > 1 and any(c in cuts for c in range(p + 1, p + len(raw))):
            return True
        p += len(raw)
    return False


# ------------------------------------------------------------------------ C02

def check_dump(sc, o, data, res, cls='dump'):
    """The binary dump shows data; returns (rows, total row)."""
    scr = screen(res)
    rows = parse_dump(scr.lines, o)
    if shows_offsets(o):
        need(rows and rows[-1].total, cls + '-total', 'no total size line')
        total = rows.pop()
        need(offset_value(total.prefix, o) == len(data), cls + '-total', f'total size is {total.prefix.strip()!r} for {len(data)} bytes')
    off = 0
    cols = None
    for k, row in enumerate(rows):
        need(not row.total, cls + '-total', f'extra line without data at row {k}')
        n = len(row.data)
        if shows_offsets(o):
            need(offset_value(row.prefix, o) == off, cls + '-offset', f'row {k} has offset {row.prefix.strip()!r} instead of {off} (0x{off:x})')
        need(row.data == data[off:off + n], cls + '-bytes', f'row {k} at {off}: {row.data.hex(" ")} instead of {data[off:off + n].hex(" ")}')
        off += n
        if o['w'] and o['w'] > 0:
            need(n + row.pad == o['w'] and (row.pad == 0 or k == len(rows) - 1), cls + '-cols',
                 f'row {k} of {len(rows)} has {n} bytes (+{row.pad} padding) instead of {o["w"]}')
    need(off == len(data), cls + '-bytes', f'{off} of {len(data)} bytes are shown')
    return rows


class C02(Check):
    id = 'C02'
    quick, thorough = 700, 28000
    rule = ('random/huge inputs x column counts x offset formats x deliveries; non-trivial = at least two rows')

    def gen(self, r, i, tier):
        o = gen.options(r, 'b')
        k = r.random()
        if tier == 'thorough' and i % 5000 == 1:     # beyond sixteen million
            o['w'], o['f'] = r.choice([65536, 1 << 17]), 1 << 20
            o['focus'] = o['ignore'] = []
            o['no_offsets'], o['decimal_offsets'] = False, r.random() < .3
            return mk(o, [[r.choice(['61', '00', 'ff', '20']), (1 << 24) + r.randint(0, 300000)], [gen.body(r, 200, gen.swarm(r)).hex() or '31', 1]], gen.source(r), [])
        if i % 100 == 99 or (tier == 'thorough' and i % 50 == 49):      # beyond one million
            f = r.choice(['ab', '00', 'ff', '20'])
            o['w'] = r.choice([4096, 65536, 16384])
            o['f'] = r.choice([65536, 131072, 1 << 20])
            o['focus'] = o['ignore'] = []
            o['no_offsets'], o['decimal_offsets'] = False, i // 100 % 4 == 3
            inp = [[f, (1 << 20 if i // 100 % 2 == 0 else 1000000) + r.randint(-40, 4000)], [gen.body(r, 200, gen.swarm(r)).hex() or '31', 1]]
            return mk(o, inp, gen.source(r), [])
        if k < .06:                                                        # around powers of the offset width
            base = r.choice([255, 4096, 9999, 10000, 65535, 65536, 99999, 100000])
            o['w'] = r.choice([64, 100, 256])
            fill = r.choice(['2e', '00', 'ff', 'c3a9' + '2e' * 59, '1b5b316d' + '20' * 60, '79' * 63 + '0a'])
            inp = [[fill, (base + r.randint(-70, 70)) // (len(fill) // 2) + 1], [gen.body(r, 300, gen.swarm(r)).hex() or '31', 1]]
            o['f'] = r.choice([None, 4096, 1000, 65536])
            return mk(o, inp, gen.source(r), [])
        inp = some_input(r, .2, 220)
        o['f'] = small_f(r, gen.size_of(inp))
        if o['w'] in (None, 0) and r.random() < .7:
            o['w'] = r.choice([1, 3, 8, 16, 17, 40])
        tune(r, o, inp)
        return mk(o, inp, gen.source(r), sched(r, inp), term=[[0, r.choice([80, 60, 33, 200])]])

    def evaluate(self, sc, cx):
        o, data = sc['o'], data_of(sc)
        a = cx.run(base_spec(sc))
        ok(a)
        rows = check_dump(sc, o, data, a)
        cx.nontrivial = len(rows) >= 2
        if len(data) > 0xffff: cx.hit('offsets beyond 0xffff')
        if len(data) > 1000000: cx.hit('offsets beyond one million')
        if len(data) > 0xffffff: cx.hit('offsets beyond sixteen million')


# ------------------------------------------------------------------------ C03

class C03(Check):
    id = 'C03'
    quick, thorough = 900, 36000
    rule = 'random inputs biased to line structure x text options x deliveries; non-trivial = at least two lines'

    def gen(self, r, i, tier):
        o = gen.options(r, r.choice(['t', '']))
        if r.random() < .7: o['m'] = 0
        if i % 100 == 99:
            inp = [[gen.word(r, 2).hex() + '0a', r.choice([120, 1200, 2500, 11000]) if i // 100 % 4 else r.choice([10010, 100020 if tier == 'thorough' and i % 1000 == 999 else 12000])], [gen.body(r, 30, gen.swarm(r)).hex() or '31', 1]]
        else:
            inp = some_input(r, .15, 220, boost=['lf', 'lf', 'word'] + r.sample(['utf8', 'cut', 'ctl', 'crlf'], 1))
        o['f'] = small_f(r, gen.size_of(inp))
        if inp and inp[0][1] >= 1000: o['f'] = r.choice([16, 100, 256, 512] if inp[0][1] < 5000 else [48, 96, 128])
        return mk(o, inp, gen.source(r), sched(r, inp))

    def evaluate(self, sc, cx):
        o, data = sc['o'], data_of(sc)
        a = cx.run(base_spec(sc))
        ok(a)
        scr = screen(a)
        exp = model.text_lines(data, dict(o, m=0))
        cx.nontrivial = len(exp) >= 2
        for i, ln in enumerate(scr.lines):
            num, cells = text_content(ln, not o['no_line_numbers'])
            need(i < len(exp), 'line-count', f'extra line {i + 1}: {short(ln.text)}')
            if num is not None:
                need(num == i + 1, 'line-number', f'line {i + 1} has number {num}')
            got = ''.join(c for c, _ in cells)
            want = ''.join(c for c, _ in exp[i])
            if o['m'] == 0:
                need(got == want, 'line-content', f'line {i + 1} is {short(got)!r} instead of {short(want)!r}')
            else:  # details and separators may be inserted
                need(is_subsequence(want, got), 'line-content', f'line {i + 1} {short(got)!r} does not contain {short(want)!r}')
            need(ln.end is not None, 'line-break', f'line {i + 1} has no line break')
        need(len(scr.lines) == len(exp), 'line-count', f'{len(scr.lines)} lines instead of {len(exp)}')


def is_subsequence(a, b):
    it = iter(b)
    return all(c in it for c in a)


# ------------------------------------------------------------------- C04, C05

def expected_text(data, o):
    return model.text_lines(data, o)


def cmp_text(o, data, res, cls, what=None):
    """Compare content cells; what(kind) limits the comparison of tokens."""
    scr = screen(res)
    exp = model.text_lines(data, o)
    for i, ln in enumerate(scr.lines):
        _, cells = text_content(ln, not o['no_line_numbers'])
        need(i < len(exp), cls, f'extra line {i + 1}: {short(ln.text)}')
        cmp_cells(cells, exp[i], cls, f'line {i + 1}')
    need(len(scr.lines) == len(exp), cls, f'{len(scr.lines)} lines instead of {len(exp)}')


def cmp_cells(got, want, cls, where):
    k = first_diff(got, want)
    if k is None:
        return
    g = f'{got[k][0]!r} {sty(got[k][1])}' if k < len(got) else 'nothing'
    w = f'{want[k][0]!r} {sty(want[k][1])}' if k < len(want) else 'nothing'
    raise Violation(cls, f'{where}, char {k}: {g} instead of {w}')


def cmp_binary(o, data, res, cls, only=None):
    rows = parse_dump(screen(res).lines, o)
    if shows_offsets(o) and rows and rows[-1].total:
        rows.pop()
    exp = []
    for kind, raw in model.tokenize(data):
        for j, c in enumerate(model.binary_cells(kind, raw, o)):
            exp.append((raw[j], kind, j, c))
    off = 0
    for row in rows:
        need(not row.total, cls, 'extra line')
        for k, b in enumerate(row.data):
            need(off < len(exp), cls, 'extra bytes')
            xb, kind, j, (ch, st) = exp[off]
            if only is None or only(kind, j):
                need(row.chars[k] == ch, cls, f'byte {off} (0x{b:02x}, {kind}) is shown as {row.chars[k]!r} instead of {ch!r}')
                need(row.chst[k] == st, cls, f'byte {off} (0x{b:02x}, {kind}) has style {sty(row.chst[k])} instead of {sty(st)}')
                need(row.hexst[k] == (st, st), cls, f'hex of byte {off} (0x{b:02x}, {kind}) has style {sty(row.hexst[k][0])} instead of {sty(st)}')
            off += 1
    need(off == len(exp), cls, f'{off} of {len(exp)} bytes are shown')


class C04(Check):
    id = 'C04'
    quick, thorough = 2000, 80000
    rule = 'random mixes of all byte classes x focus/ignore sets x modes x deliveries; non-trivial = at least 3 classes present'

    def gen(self, r, i, tier):
        o = gen.options(r)
        o['m'] = 0
        o['color_markers'] = False
        if i % 400 == 7: return mk(o, huge_run(r, o), gen.source(r), [], term=[[0, 4000]])
        inp = some_input(r, .1, 200, boost=r.sample(gen.KINDS, 4))
        o['f'] = small_f(r, gen.size_of(inp))
        tune(r, o, inp)
        return mk(o, inp, gen.source(r), sched(r, inp))

    def evaluate(self, sc, cx):
        o, data = sc['o'], data_of(sc)
        a = cx.run(base_spec(sc))
        ok(a)
        kinds = {k for k, _ in model.tokenize(data)}
        cx.nontrivial = len({model.CLASS[k] for k in kinds}) >= 3
        for k in kinds: cx.hit(f'kind {k}')
        if gen.is_binary(o):
            cmp_binary(o, data, a, 'class', lambda kind, j: not (kind in model.ESC_KINDS and j > 0 and 'esc' not in o['ignore']))
        else:
            cmp_text(o, data, a, 'class')


class C05(Check):
    id = 'C05'
    quick, thorough = 2000, 80000
    rule = 'sequences of control characters/escape sequences x marker levels x separators/colour options x deliveries; non-trivial = at least 2 markers with details'

    def gen(self, r, i, tier):
        o = gen.options(r)
        if not gen.is_binary(o):
            o['m'] = r.choice([0, 1, 1, 1, 2, 2, 2, 3])
        o['color_markers'] = r.random() < .45
        inp = some_input(r, .1, 200, boost=['sgr', 'sgr', 'ctlrun'] + r.sample(['sgrx', 'sgrbad', 'csi', 'nf', 'fp', 'fe', 'fs', 'sgr0', 'priv', 'esc', 'ctl', 'nul'], 4))
        o['f'] = small_f(r, gen.size_of(inp))
        tune(r, o, inp)
        return mk(o, inp, gen.source(r), sched(r, inp))

    def evaluate(self, sc, cx):
        o, data = sc['o'], data_of(sc)
        a = cx.run(base_spec(sc))
        ok(a)
        kinds = [k for k, _ in model.tokenize(data)]
        cx.nontrivial = sum(1 for k in kinds if k in model.ESC_KINDS or k == 'ctl') >= 2
        if gen.is_binary(o):
            cmp_binary(o, data, a, 'details', lambda kind, j: kind in model.ESC_KINDS or kind == 'ctl')
        else:
            cmp_text(o, data, a, 'details')


# ------------------------------------------------------------------------ C06

class C06(Check):
    id = 'C06'
    quick, thorough = 1200, 48000
    rule = 'random inputs x all options incl. debug levels, column counts, read sizes, terminal sizes x deliveries; non-trivial = non-empty input'

    def gen(self, r, i, tier):
        o = gen.options(r)
        o['D'] = r.choice([0, 0, 0, 1, 2, 3, 4])
        if i % 400 == 7: return mk(o, huge_run(r, o), gen.source(r), [], term=[[0, 4000]])
        inp = some_input(r, .08 if o['D'] else .2, 200 if not o['D'] else 120, boost=r.sample(gen.KINDS, 5))
        k = r.random()
        if k < .03:
            inp = inp + gen.pieces_of([(b'\x1b[', 1), (r.choice([b'1', b'0', b'9', b'1;', b';', b':', b'38;5;1;']), r.choice([300, 2000, 5000])), (r.choice([b'm', b'm', b'H', b'']), 1)])
        elif k < .06:
            inp = inp + gen.pieces_of([(r.choice([b'\x1b', b'\x1b[', b'\x1b ', b'\xe2\x82', b'\n', b'\x1b[m', b'\xf0\x9f']), r.choice([50, 400, 1000]))])
        n = gen.size_of(inp)
        o['f'] = r.choice([0, small_f(r, n), small_f(r, n), small_f(r, n)])
        if r.random() < .2: o['w'] = r.choice([-1, -5, 0, 1000, 100000])
        if r.random() < .1: o['L'] = r.choice([0, 1, 3, 10 ** 9])
        if r.random() < .1: o['B'] = r.choice([0, 1, 7, 10 ** 9])
        if r.random() < .1: o['m'] = r.choice([5, 100])
        if r.random() < .05: o['w'] = r.choice([1, 2])
        if n > 800 and o['w'] is not None and 0 < o['w'] < 8: o['w'] = 8
        return mk(o, inp, gen.source(r), sched(r, inp), term=[[0, r.choice([80, 80, 80, 1, 2, 0, 10, 26, 27, 28, 40, 500, None])]])

    def evaluate(self, sc, cx):
        o, data = sc['o'], data_of(sc)
        n = len(data)
        a = cx.run(base_spec(sc, limit=40000 + (6000 if not o['D'] else 60000) * (n + 1) + 20 * abs(o['w'] or 0) * (n + 1)))
        ok(a)
        cx.nontrivial = len(data) > 0
        if o['D']: cx.hit(f'debug level {o["D"]}')
        data = model.limited(data, o)
        scr = screen(a)
        lines = ordinary(scr) if o['D'] else scr.lines
        if gen.is_binary(o):
            rows = [x for x in parse_dump(lines, o) if not x.total]
            got = b''.join(x.data for x in rows)
            need(got == data, 'incomplete', f'{len(got)} bytes {short(got.hex())} are shown instead of {len(data)} bytes {short(data.hex())}')
        else:
            exp = model.text_lines(data, dict(o, m=0))
            need(len(lines) == len(exp), 'incomplete', f'{len(lines)} lines are shown instead of {len(exp)}')
            for i, (ln, want) in enumerate(zip(lines, exp)):
                numbered = bool(o['D']) or not o['no_line_numbers']
                _, cells = text_content(ln, numbered)
                need(is_subsequence(''.join(c for c, _ in want), ''.join(c for c, _ in cells)), 'incomplete',
                     f'line {i + 1} {short(ln.text)!r} does not contain {short("".join(c for c, _ in want))!r}')


def ordinary(scr):
    """Output lines in debug mode which are not diagnostics."""
    return [ln for ln in scr.lines if ln.chars and not ln.styles[0][1]]


# ------------------------------------------------------------------------ C07

class C07(Check):
    id = 'C07'
    quick, thorough = 1200, 48000
    level = 'fault_enumeration'
    rule = ('random inputs x byte/line limits around interesting positions x read sizes x partitions; the source fails, blocks forever or never ends right '
            'after the buffer with the limit; non-trivial = a limit cuts the input')

    def gen(self, r, i, tier):
        o = gen.options(r)
        inp = some_input(r, .15, 160, boost=['lf', 'lf', 'word', r.choice(['utf8', 'sgr', 'cut', 'csi'])])
        data = b''.join(bytes.fromhex(h) * n for h, n in inp)
        n, nl = len(data), data.count(b'\n')
        k = r.random()
        if k < .7: o['B'] = r.choice([1, 2, 3, max(1, n - 1), max(1, n), n + 1, n + 100, r.randint(1, n + 1), r.randint(1, n + 1), r.randint(1, n + 1)])
        if k > .5: o['L'] = r.choice([1, 1, 2, 3, max(1, nl - 1), max(1, nl), nl + 1, nl + 5, r.randint(1, nl + 1), r.randint(1, nl + 1)])
        o['f'] = small_f(r, n)
        if o['f'] and r.random() < .3 and o['B'] and o['B'] < 5000:
            o['f'] = r.choice([o['B'], max(1, o['B'] // 2), o['B'] + 1])
        tune(r, o, inp)
        if r.random() < .1: o['D'] = 1
        return mk(o, inp, gen.source(r), sched(r, inp), tail=r.choice(['eof', 'poison', 'stuck', 'endless']), term=[[0, 80]])

    def evaluate(self, sc, cx):
        o, data = sc['o'], data_of(sc)
        shown = model.limited(data, o)
        # position of the input at which the limit is known to be reached
        pos = []
        if o['B']: pos.append(o['B'])
        if o['L']:
            p = -1
            for _ in range(o['L']):
                p = data.find(b'\n', p + 1)
                if p < 0: break
            if p >= 0: pos.append(p + 1)
        reach = min([p for p in pos if p <= len(data)], default=None)
        inp, tail = sc['inp'], sc['tail']
        chunk = gen.chunk_size(o)
        if reach is None:
            tail = 'eof'
        else:                    # fill up the buffer which contains the limit
            cx.nontrivial = len(shown) < len(data)
            missing = -(-reach // chunk) * chunk - len(data)
            if missing > 0 and tail != 'eof':
                inp = inp + [['71', missing]]
        a = cx.run(base_spec(dict(sc, inp=inp, tail=tail)))
        need(not a['poisoned'] and not a['endless'], 'limit-read', f'input is requested after the limit (B={o["B"]} L={o["L"]}) is reached')
        ok(a)
        if reach is not None:
            got = 0
            for e in a['log']:
                if e[1] == 'got' and e[3] > 0: got += e[3]
                elif e[1] == 'req':
                    need(got < reach, 'limit-read', f'a read request follows after {got} bytes were received, limit reached at {reach}')
        ref = cx.run(gen.spec(dict(o, B=None, L=None), [[shown.hex(), 1]] if shown else [], 'file', []))
        if o['D']:
            x, y = ordinary(Screen(body(a['out']))), ordinary(Screen(body(ref['out'])))
            need([ln.key() for ln in x] == [ln.key() for ln in y], 'limit-output', f'ordinary lines differ from those of the first {len(shown)} bytes')
            return
        same_screen(Screen(decode(a['out'])), Screen(decode(ref['out'])), 'limit-output', f'limited to {len(shown)} of {len(data)} bytes')


# ------------------------------------------------------------------------ C08

class C08(Check):
    id = 'C08'
    quick, thorough = 2200, 88000
    level = 'fault_enumeration'
    rule = ('hostile inputs x options x debug levels x deliveries, optionally with a read error or an interrupt midway; non-trivial = the input has a '
            'control character or an escape sequence')
    ALLOWED_AT_EOL = {'bold', 'dim', 'italic'}

    def gen(self, r, i, tier):
        o = gen.options(r)
        o['D'] = r.choice([0, 0, 0, 0, 1, 2, 3, 4])
        inp = some_input(r, .05, 100 if o['D'] else 200, boost=r.sample(['c1', 'ctl', 'esc', 'cut', 'csi', 'sgr', 'sgrbad', 'utf8', 'nf', 'fe', 'badutf', 'tab', 'ws', 'lf', 'bs', 'nul', 'rnd', 'priv'], 5))
        n = gen.size_of(inp)
        o['f'] = small_f(r, n)
        tune(r, o, inp)
        plan = sched(r, inp)
        k = r.random()
        if k < .15: plan.insert(r.randint(0, len(plan)), ['err', errno.EIO])
        elif k < .3: plan.insert(r.randint(0, len(plan)), ['ki'])
        return mk(o, inp, gen.source(r), plan)

    def evaluate(self, sc, cx):
        o, data = sc['o'], data_of(sc)
        a = cx.run(base_spec(sc))
        cx.nontrivial = any(model.CLASS[k] in ('control', 'esc') for k, _ in model.tokenize(data))
        scr = Screen(decode(a['out']))
        text = not gen.is_binary(o)
        need(not scr.bad, 'raw-control', f'line {scr.bad[0][0] + 1}: {scr.bad[0][1]}: {short(scr.lines[scr.bad[0][0]].text) if scr.bad[0][0] < len(scr.lines) else ""}' if scr.bad else '')
        if not text:
            need('\t' not in strip(a['out'].decode()), 'raw-control', 'tab in binary mode')
        for i, ln in enumerate(scr.lines if a['status'] == 0 else Screen(cut_notice(decode(a['out']))).lines):
            need(ln.leak is None, 'style-leak', f'line {i + 1} starts with {sty(ln.leak[0])} instead of {sty(ln.leak[1])}: {short(ln.text)}' if ln.leak else '')
            if ln.end is not None and o['D'] == 0:
                need(not ln.end[1] and not (ln.end[2] - self.ALLOWED_AT_EOL), 'style-eol', f'line {i + 1} ends with {sty(ln.end)}: {short(ln.text)}')
        if a['status'] == 0:
            need(scr.final == PLAIN, 'style-final', f'the run ends with {sty(scr.final)}')
        e = Screen(decode(a['err']))
        need(not e.bad and '\t' not in a['err'].decode(), 'raw-control', f'stderr: {short(a["err"])}')


# ------------------------------------------------------------------------ C09

def unfinished(d):
    """Length of the unfinished sequence at the end of d (0 if none)."""
    for k in (1, 2, 3):
        t = d[-k:]
        if len(t) == k and t[0] >= 0xc2 and t[0] <= 0xf4:
            need_ = 2 if t[0] < 0xe0 else 3 if t[0] < 0xf0 else 4
            if k < need_ and all(0x80 <= c <= 0xbf for c in t[1:]):
                return k
    i = d.rfind(b'\x1b')
    if i >= 0:
        t = d[i + 1:]
        if not t: return 1
        if t[:1] == b'[' and re.fullmatch(b'\\[[0-?]*[ -/]*', t): return len(d) - i
        if re.fullmatch(b'[ -/]+', t): return len(d) - i
    return 0


class C09(Check):
    id = 'C09'
    quick, thorough = 1500, 60000
    rule = ('random inputs x read sizes x slow fragmented sources; at every read request of the application the output printed so far is compared with the '
            'lines/rows complete in the data received; non-trivial = at least 3 requests with data')

    def gen(self, r, i, tier):
        o = gen.options(r)
        inp = some_input(r, .1, 200, boost=['lf', 'lf', r.choice(['sgr', 'utf8', 'cut', 'word', 'ctl'])])
        n = gen.size_of(inp)
        o['f'] = small_f(r, n) if n > 1500 else r.choice([1, 1, 2, 3, 5, 8, 16, 64])
        if gen.is_binary(o) and o['w'] in (None, 0): o['w'] = r.choice([1, 2, 4, 16, 33])
        tune(r, o, inp)
        return mk(o, inp, gen.source(r), sched(r, inp))

    def evaluate(self, sc, cx):
        o, data = sc['o'], data_of(sc)
        a = cx.run(base_spec(sc))
        ok(a)
        out, got, reqs, chunk = a['out'], 0, 0, gen.chunk_size(o)
        for e in a['log']:
            if e[1] == 'req':
                n, printed = e[4], e[-1]
                need(0 < n <= chunk, 'request-size', f'{n} bytes are requested at once, the read buffer is {chunk}')
                lines = out[:printed].count(b'\n')
                d = data[:got]
                if gen.is_binary(o):
                    want = (got - unfinished(d)) // o['w']
                    need(lines >= want, 'lag', f'{lines} rows of {o["w"]} are printed when the next buffer is requested, {got} bytes were received')
                else:
                    want = d.count(b'\n')
                    need(lines >= want, 'lag', f'{lines} lines are printed when the next buffer is requested, {want} were received in {got} bytes')
            elif e[1] == 'got' and e[3] > 0:
                got += e[3]
                reqs += 1
        need(a['eof_seen'], 'eof', 'the input was not read to the end')
        cx.nontrivial = reqs >= 3


# ------------------------------------------------------------------------ C10

ERRS = [errno.EIO, errno.EIO, errno.EISDIR, errno.EACCES, errno.ESTALE, errno.ECONNRESET, errno.EBADF, errno.ENXIO, errno.EINVAL, errno.ETIMEDOUT]


def place(r, plan, ev):
    """Insert an event into a delivery plan, biased to places between deliveries."""
    plan.insert(r.randint(0, len(plan)), ev)
    return plan


class C10(Check):
    id = 'C10'
    quick, thorough = 2000, 80000
    level = 'fault_enumeration'
    rule = 'open errors and read errors (single/repeated, also EAGAIN of a non-blocking source) at random points of random deliveries; non-trivial = the fault fired'

    def gen(self, r, i, tier):
        o = gen.options(r)
        o['D'] = r.choice([0, 0, 0, 0, 0, 1, 3])
        inp = some_input(r, .15, 150, boost=['lf', 'lf', r.choice(['sgr', 'utf8', 'cut'])])
        n = gen.size_of(inp)
        o['f'] = small_f(r, n) if r.random() < .5 else r.choice([1, 2, 4, 8])
        if n > 1500 and o['f'] and o['f'] < 500: o['f'] = 1024
        tune(r, o, inp)
        src = gen.source(r)
        sc = mk(o, inp, src, sched(r, inp) or [['d', r.randint(1, n + 1)] for _ in range(r.randint(0, 3))])
        if src in ('file', 'fifo') and r.random() < .15:
            sc['open'] = ['err', r.choice([errno.ENOENT, errno.EACCES, errno.EMFILE, errno.ENFILE, errno.EISDIR, errno.EIO, errno.ENXIO, errno.ELOOP])]
        else:
            kind = ['none'] if src != 'file' and r.random() < .15 else ['err', r.choice(ERRS)]
            p = r.randint(0, len(sc['plan']))
            sc['plan'].insert(p, kind)
            if r.random() < .2: sc['plan'].insert(p + 1, ['err', r.choice(ERRS)])
        return sc

    def evaluate(self, sc, cx):
        o, data = sc['o'], data_of(sc)
        clean = dict(sc, open=None, plan=[e for e in sc['plan'] if e[0] in ('d', 'stall')])
        ref = cx.run(base_spec(clean))
        ok(ref, 'reference')
        a = cx.run(base_spec(sc))
        if not a['input_failed']:
            need(a['status'] == 0 and a['out'] == ref['out'] and not a['err'], 'spurious', f'no fault happened, status {a["status"]}, stderr {short(a["err"])}')
            return
        cx.nontrivial = True
        none = any(e[1] == 'fault' and e[3] == 'none' for e in a['log'])
        if a['status'] == 0:
            need(none and all_cells(a, o) == all_cells(ref, o), 'false-success', 'status 0 after a failed read')
            return
        need(1 <= a['status'] <= 255, 'status', f'status {a["status"]}')
        need(a['err'].strip(), 'no-message', 'nothing on stderr')
        need(a['uncaught'] is None, 'traceback', f'uncaught {a["uncaught"]}')
        m = re.search('(?:Type|Attribute|Name|Index|Key|UnboundLocal|Assertion|Recursion|Import)Error', a['err'].decode())
        need(not m, 'no-message', f'the message is not about the input: {short(a["err"])}')
        bad = [e[4] for e in a['log'] if e[1] == 'fault' and e[3] == 'err']
        if sc.get('open'): bad = [sc['open'][1]]
        if bad:
            need(os.strerror(bad[0]) in a['err'].decode(), 'no-message', f'stderr does not tell about {os.strerror(bad[0])!r}: {short(a["err"])}')
        out, rbody = decode(a['out']), body(ref['out'])
        if o['D']:     # diagnostics depend on the point of failure: compare ordinary lines
            x, y = ordinary(Screen(cut_notice(out))), ordinary(Screen(rbody))
            kx, ky = [ln.key() for ln in x if ln.chars], [ln.key() for ln in y]
            need(kx == ky[:len(kx)], 'not-a-prefix', 'ordinary lines are not a prefix of those of the full output')
            return
        if none:       # a partial read before the failure may have changed the segmentation
            x, y = cells_of(cut_notice(out)), cells_of(rbody)
            while x and x[-1][0] == '\n': x.pop()
            need(x == y[:len(x)], 'not-a-prefix', 'characters are not a prefix of those of the full output')
            return
        k = prefix_plus_notice(out, rbody)
        need(k is not None, 'not-a-prefix', f'output is not a prefix of the full one (common {lcp(out, rbody)} chars, then {short(out[lcp(out, rbody):])!r})')
        got = sum(e[3] for e in a['log'] if e[1] == 'got' and e[3] > 0)
        if gen.is_binary(o):
            if o['w'] and o['w'] > 0:
                want = (got - unfinished(data[:got])) // o['w']
                need(rbody[:k].count('\n') >= want, 'lost', f'{rbody[:k].count(chr(10))} rows of {o["w"]} are printed, {got} bytes were received')
        else:
            want = data[:got].count(b'\n')
            need(rbody[:k].count('\n') >= want, 'lost', f'{rbody[:k].count(chr(10))} lines are printed, {want} were received')


def cells_of(text):
    return [c for ln in Screen(text).lines for c in [*zip(ln.chars, ln.styles), ('\n', None)]]


def all_cells(res, o):
    scr = Screen(decode(res['out']))
    return [ln.key() for ln in (ordinary(scr) if o['D'] else scr.lines)]


def cut_notice(out):
    i = out.rfind('\x1b[31mTraceback')
    if i < 0: i = out.rfind('Run the app')
    return out if i < 0 else out[:i]


# ------------------------------------------------------------------------ C11

class C11(Check):
    id = 'C11'
    quick, thorough = 700, 28000
    level = 'fault_enumeration'
    rule = ('write failures (ENOSPC, EPIPE, EIO, one-shot EIO, EAGAIN, short writes, unencodable characters) at random output positions x buffering modes; '
            'non-trivial = a fault fired')

    def gen(self, r, i, tier):
        o = gen.options(r)
        o['D'] = r.choice([0, 0, 0, 0, 0, 0, 1, 3])
        inp = some_input(r, .2, 200, boost=['lf'])
        n = gen.size_of(inp)
        o['f'] = small_f(r, n)
        if n > 1500 and o['f'] and o['f'] < 500: o['f'] = 1024
        tune(r, o, inp)
        mode = r.choice(['buffered', 'line', 'unbuffered'])
        out = dict(mode=mode, tty=(mode == 'line' and r.random() < .5), faults=[])
        if r.random() < .2:
            out['enc'] = r.choice(['ascii', 'latin-1', 'cp1251', 'koi8-r', 'utf-16-le'])
        if 'enc' not in out or r.random() < .3:
            est = max(2, n * r.choice([8, 12, 20, 20]))
            for _ in range(r.choice([1, 1, 1, 2])):
                pos = r.choice([0, 1, r.randint(0, 64), r.randint(0, est), r.randint(0, est), 8192 + r.randint(-3, 3), 8192 * r.randint(1, 4)])
                kinds = ['full', 'pipe', 'eio', 'eio1', 'eagain', 'eagain']
                if mode != 'unbuffered': kinds += ['short', 'short']
                out['faults'].append([pos, r.choice(kinds)])
            out['faults'].sort()
        return mk(o, inp, gen.source(r), sched(r, inp), out=out)

    def evaluate(self, sc, cx):
        out = sc['out']
        ref = cx.run(base_spec(dict(sc, out=dict(out, faults=[], enc='utf-8'))))
        ok(ref, 'reference')
        full = decode(ref['out'])
        enc = out.get('enc', 'utf-8')
        try:
            full.encode(enc)
            encodable = True
        except UnicodeEncodeError:
            encodable = False
            cx.hit('unencodable characters')
        a = cx.run(base_spec(sc))
        cx.nontrivial = a['output_failed'] or not encodable or 'out:short' in a['fires']
        if not a['output_failed'] and encodable:
            need(a['status'] == 0 and not a['err'], 'spurious', f'no failure, status {a["status"]}, stderr {short(a["err"])}')
            need(a['out'] == full.encode(enc), 'corrupted', 'output differs although no write failed')
            return
        need(a['status'] != 0, 'false-success', 'status 0 after a failed write')
        t = lenient(a['out'], enc)
        fbody = body(ref['out'])
        # a failed device may cut a character
        k = prefix_plus_notice(t, fbody)
        if k is None and enc == 'utf-16-le':
            # cut in the middle of a code unit: everything behind is shifted by a byte
            top = lcp(a['out'], fbody.encode(enc))
            for pos in range(top - 1 + top % 2, max(0, top - 32), -2):
                t = lenient(a['out'][:pos - 1] + a['out'][pos:], enc)
                k = prefix_plus_notice(t, fbody)
                if k is not None:
                    break
        if k is None and t != full:
            raw = fbody.encode(enc, 'replace')
            need(encodable and raw.startswith(a['out']) or full.startswith(t), 'corrupted',
                 f'output is not a prefix of the correct one plus a notice (common {lcp(t, fbody)} chars, then {short(t[lcp(t, fbody):])!r})')


def lenient(b, enc):
    try:
        return b.decode(enc)
    except UnicodeDecodeError as e:
        return b[:e.start].decode(enc)


# ---------------------------------------------------------- C12, C13 injection

def window(ref):
    """(first seq, last seq) of the processing in a fault-free unbuffered run."""
    first = min(e[0] for e in ref['log'] if e[1] in ('open', 'req'))
    close = [e[0] for e in ref['log'] if e[1] == 'close']
    total = len(ref['out'])
    done = [e[0] for e in ref['log'] if e[1] == 'write' and e[2] == 'stdout' and e[3] >= total - 1]
    # an empty input is processed as soon as its end is seen
    last = min(close + done) if total > 1 else max(e[0] for e in ref['log'] if e[1] == 'got')
    return first, last, (max(close) if close else last)


def pick_site(r, sites, lo, hi):
    """1-based line index: a uniformly chosen source line, then one of its executions."""
    per = {}
    for i, (site, seq) in enumerate(sites):
        if lo <= seq < hi:
            per.setdefault(site, []).append(i + 1)
    if not per:
        return None
    name = sorted(per)[int(r * len(per))]
    occ = per[name]
    frac = (r * len(per)) % 1.0
    # first, last and random executions are all interesting
    if frac < .2: return occ[0]
    if frac > .85: return occ[-1]
    return occ[min(len(occ) - 1, int((frac - .2) / .65 * len(occ)))]


class _Inject(Check):
    level = 'fault_enumeration'

    def small(self, r):
        o = gen.options(r)
        if r.random() < .12: o['D'] = r.choice([1, 2, 3, 4])
        inp = gen.small_input(r, 14 if o['D'] else 30, boost=['lf', r.choice(['sgr', 'utf8', 'ctl', 'word', 'csi'])])
        o['f'] = r.choice([None, 1, 2, 3, 5, 8])
        if o['w'] in (None, 0) and r.random() < .5: o['w'] = r.choice([1, 4, 8])
        if r.random() < .15: o['B'] = r.randint(1, 20)
        if r.random() < .15: o['L'] = r.randint(1, 3)
        return o, inp

    def resolve(self, sc, cx, exc):
        """Turn the relative injection point into a line index."""
        if 'at' in sc:
            return sc['at']
        rec = cx.run(base_spec(sc, inject=dict(exc='record')))
        lo, hi, cl = window(rec)
        at = pick_site(sc['point'], rec['sites'], lo, hi if exc == 'ki' else hi)
        return at


def closes(a, sc):
    """When the input was closed."""
    kind = sc['src'] if sc['src'] in ('file', 'fifo') else 'stdin'
    return [e[0] for e in a['log'] if e[1] == 'close' and e[2] == kind]


def just_opened(a):
    """The injection hit between the return of open() and the first use of its result."""
    ev = [e[1] for e in a['log'] if e[1] in ('open', 'req', 'inject')]
    return ev[:2] == ['open', 'inject']


class C12(_Inject):
    id = 'C12'
    quick, thorough = 2000, 80000
    rule = ('Ctrl+C at a random executed source line of the application between opening the input and the end of processing (source lines chosen uniformly, '
            'then one of their executions), while opening, while blocked in a read at any point of the delivery, or inside a write; non-trivial = it fired')

    def gen(self, r, i, tier):
        o, inp = self.small(r)
        src = gen.source(r)
        sc = mk(o, inp, src, sched(r, inp))
        k = r.random()
        if k < .08 and src in ('file', 'fifo'):
            sc['open'] = ['ki']
        elif k < .3:
            place(r, sc['plan'], ['ki'])
        elif k < .42:
            sc['wpos'] = r.random()
        else:
            sc['point'] = r.random()
        return sc

    def evaluate(self, sc, cx):
        clean = dict(sc, open=None, plan=[e for e in sc['plan'] if e[0] != 'ki'])
        ref = cx.run(base_spec(clean))
        ok(ref, 'reference')
        if 'wpos' in sc:
            first = min(e[0] for e in ref['log'] if e[1] in ('open', 'req'))
            lo = max((e[3] for e in ref['log'] if e[1] == 'write' and e[2] == 'stdout' and e[0] < first), default=0)
            hi = len(ref['out']) - 2
            if hi < lo: return
            a = cx.run(base_spec(sc, out=dict(faults=[[lo + int(sc['wpos'] * (hi - lo + 1)), 'ki']])))
        elif 'point' in sc or 'at' in sc:
            at = self.resolve(sc, cx, 'ki')
            if at is None: return
            a = cx.run(base_spec(sc, inject=dict(exc='ki', at=at)))
        else:
            a = cx.run(base_spec(sc))
        if not a['interrupted']:
            need(a['status'] == 0 and a['out'] == ref['out'], 'spurious', 'output differs although no interrupt happened')
            return
        cx.nontrivial = True
        where = a.get('injected') or 'i/o'
        need(a['uncaught'] is None, 'traceback', f'interrupt at {where}: uncaught {a["uncaught"]}')
        need(a['status'] == 0, 'status', f'interrupt at {where}: status {a["status"]}, stderr {short(a["err"])}')
        need(not a['err'], 'stderr', f'interrupt at {where}: stderr {short(a["err"])}')
        out, rbody = decode(a['out']), body(ref['out'])
        # nothing but a part of the normal output and the final line break
        good = out == decode(ref['out']) or out.endswith('\n') and rbody.startswith(out[:-1]) or rbody.startswith(out)
        need(good, 'not-a-prefix', f'interrupt at {where}: output is not a prefix of the full one, differs after {lcp(out, rbody)} chars: {short(out[lcp(out, rbody):])!r}')
        it = [e[0] for e in a['log'] if e[1] in ('inject',) or e[1] == 'fault' and e[3] in ('ki',)]
        if it:
            late = [e for e in a['log'] if e[0] > it[0] and e[1] in ('req', 'rawread', 'open')]
            need(not late, 'read-after', f'interrupt at {where}: input is used afterwards: {late[:1]}')
        used = any(e[1] in ('req', 'open') for e in a['log']) and not sc.get('open')
        if used and not just_opened(a):
            need(closes(a, sc) and not any(e[1] == 'leak' for e in a['log']), 'not-closed', f'interrupt at {where}: the input is not closed')


class C13(_Inject):
    id = 'C13'
    quick, thorough = 1100, 44000
    rule = ('MemoryError at a random executed source line of the application between opening the input and closing it (source lines chosen uniformly, then '
            'one of their executions); non-trivial = it fired')

    def gen(self, r, i, tier):
        o, inp = self.small(r)
        return mk(o, inp, gen.source(r), sched(r, inp), point=r.random())

    def evaluate(self, sc, cx):
        ref = cx.run(base_spec(sc))
        ok(ref, 'reference')
        at = self.resolve(sc, cx, 'mem')
        if at is None: return
        a = cx.run(base_spec(sc, inject=dict(exc='mem', at=at)))
        if not a['injected']:
            return
        cx.nontrivial = True
        where = a['injected']
        if a['status'] == 0:
            need(a['out'] == ref['out'], 'absorbed', f'MemoryError at {where}: status 0, but the output differs from the correct one')
            return
        need(a['err'].strip(), 'no-message', f'MemoryError at {where}: status {a["status"]} without a message')
        out, rbody = decode(a['out']), body(ref['out'])
        if sc['o']['D']:
            x, y = ordinary(Screen(cut_notice(out))), ordinary(Screen(rbody))
            kx, ky = [ln.key() for ln in x if ln.chars], [ln.key() for ln in y]
            need(kx == ky[:len(kx)] or kx[:-1] == ky[:len(kx) - 1], 'not-a-prefix', f'MemoryError at {where}: ordinary lines are not a prefix of the correct ones')
            return
        need(prefix_plus_notice(out, rbody) is not None, 'not-a-prefix',
             f'MemoryError at {where}: output is not a prefix of the correct one (common {lcp(out, rbody)}, then {short(out[lcp(out, rbody):])!r})')


# ------------------------------------------------------------------------ C14

class C14(_Inject):
    id = 'C14'
    quick, thorough = 3500, 140000
    rule = ('all ways a run can end: end of input, limits, open/read errors, output errors, interrupts, injected failures at random lines; '
            'non-trivial = the run was cut short by something')

    def gen(self, r, i, tier):
        o, inp = self.small(r)
        src = r.choice(['file', 'file', 'file', 'fifo', 'stdin', 'dash'])
        sc = mk(o, inp, src, sched(r, inp))
        k = r.choice(['none', 'none', 'limit', 'open', 'err', 'out', 'ki', 'inj', 'inj', 'mem', 'enc', 'outki'])
        if k == 'limit':
            if r.random() < .5: o['B'] = r.randint(1, 12)
            else: o['L'] = r.randint(1, 3)
        elif k == 'open' and src in ('file', 'fifo'): sc['open'] = r.choice([['ki'], ['err', errno.ENOENT], ['err', errno.EACCES]])
        elif k == 'err': place(r, sc['plan'], ['err', r.choice(ERRS)])
        elif k == 'ki': place(r, sc['plan'], ['ki'])
        elif k == 'out': sc['out'] = dict(mode=r.choice(['buffered', 'line', 'unbuffered']), faults=[[r.randint(0, 300), r.choice(['full', 'pipe', 'eio1', 'eagain'])]])
        elif k == 'enc': sc['out'] = dict(mode='unbuffered', enc='ascii')
        elif k == 'outki': sc['out'] = dict(mode='unbuffered', faults=[[r.randint(0, 200), 'ki']])
        elif k in ('inj', 'mem'):
            sc['point'] = r.random()
            sc['exc'] = 'ki' if k == 'inj' else 'mem'
        return sc

    def evaluate(self, sc, cx):
        if 'point' in sc or 'at' in sc:
            at = self.resolve(sc, cx, 'ki')
            if at is None: return
            a = cx.run(base_spec(sc, inject=dict(exc=sc['exc'], at=at)))
        else:
            a = cx.run(base_spec(sc))
        cx.nontrivial = a['status'] != 0 or a['interrupted'] or bool(sc['o']['B'] or sc['o']['L'])
        named = sc['src'] in ('file', 'fifo')
        opens = [e for e in a['log'] if e[1] == 'open']
        how = f'status {a["status"]}, {"interrupted, " if a["interrupted"] else ""}{a.get("injected") or ""}'
        if named:
            need(len(opens) <= 1, 'reopened', f'the input is opened {len(opens)} times')
            need(len(opens) == 1 or sc.get('out') and a['status'], 'not-opened', 'the input is not opened')
        else:
            need(not [e for e in opens if e[2] == 'file'], 'opened', 'a file is opened although the input is stdin')
        need(not a['foreign_writes'], 'writes', f'opened for writing: {a["foreign_writes"][:1]}')
        need(not a['dir_changed'], 'writes', 'the directory of the input file has changed')
        need(not [e for e in a['log'] if e[1] == 'seek'], 'seek', 'the input is not read sequentially')
        other = [e for e in a['log'] if e[1] == 'foreign' and not e[2].startswith(('/usr', '/repo', '/opt', '<frozen', '/lib')) and not e[2].endswith(('.py', '.mo'))]
        need(not other, 'other-file', f'another file is opened: {other[:1]}')
        used = any(e[1] == 'req' for e in a['log']) or opens and not sc.get('open')
        if used and not just_opened(a):
            need(not any(e[1] == 'leak' for e in a['log']), 'not-closed', f'the input is not closed ({how})')
            need(closes(a, sc), 'not-closed', f'the input is not closed ({how})')
            c = min(closes(a, sc))
            need(not [e for e in a['log'] if e[0] > c and e[1] in ('req', 'rawread', 'open')], 'read-after-close', 'the input is used after it was closed')


# ------------------------------------------------------------------------ C15

class C15(_Inject):
    id = 'C15'
    quick, thorough = 900, 36000
    level = 'fault_enumeration'
    rule = ('histories of 2-4 runs in one process with random options, inputs and endings (success, limits, errors, interrupts at random lines); every run is '
            'compared with the same run in a fresh process; non-trivial = an earlier run ended abnormally or options differ')

    def one(self, r, last):
        o = gen.options(r)
        if r.random() < .3: o['D'] = r.choice([1, 2, 3, 4])
        inp = gen.small_input(r, 40, boost=['lf', 'sgr', 'ctl'])
        o['f'] = r.choice([None, 1, 3, 8])
        large = not last and r.random() < .08
        if large:      # whatever grows with the input must not survive the run
            unit, total = r.choice([(b'abcdefg\n', 3000), (b'x' * 255 + b'\n', 10100), (b'x' * 63 + b'\n', 10100), ('é'.encode() * 70 + b'\n', 10100), (b'\x1b[31mred\x1b[m\n', 1500),
                                    (b'\x1b[2J', 1500), (b'\xff', 10100), (bytes(range(256)), 1500)])
            inp = [[unit.hex(), total // len(unit) + 1], *inp]
            if total > 10000 and r.random() < .7: o = dict(gen.options(r, 'b'), D=0, L=None, B=None)
            if o['w'] is not None and 0 < o['w'] < 32: o['w'] = 32
            tune(r, o, inp)
            o['f'] = r.choice([None, 4096, 1000, 20000])
            if o['D']: o['D'] = min(o['D'], 2)
        elif r.random() < .2: o['B'] = r.randint(1, 20)
        sc = mk(o, inp, gen.source(r), sched(r, inp))
        k = r.choice(['ok', 'ok', 'err', 'ki', 'out', 'open'] if large else ['ok', 'ok', 'err', 'ki', 'inj', 'inj', 'mem', 'out', 'usage', 'aux', 'open'])
        if k == 'err': place(r, sc['plan'], ['err', errno.EIO])
        elif k == 'ki': place(r, sc['plan'], ['ki'])
        elif k == 'open' and sc['src'] in ('file', 'fifo'): sc['open'] = ['err', errno.ENOENT]
        elif k == 'out': sc['out'] = dict(mode='unbuffered', faults=[[r.randint(0, 200), r.choice(['full', 'eio1'])]])
        elif k in ('inj', 'mem'):
            sc['frac'] = r.random()
            sc['exc'] = 'ki' if k == 'inj' else 'mem'
        elif k == 'usage': sc['argv'] = r.choice([['--nope'], ['-m', 'x'], ['-t', '-b'], ['-s', '-S'], ['a', 'b']])
        elif k == 'aux': sc['argv'] = r.choice([['--version'], ['--legend'], ['--demo'], ['--demo', '-t'], ['--demo', '-w8'], ['--help']])
        return sc

    def gen(self, r, i, tier):
        n = r.choice([2, 2, 2, 3, 4])
        return dict(runs=[self.one(r, j == n - 1) for j in range(n)])

    def evaluate(self, sc, cx):
        specs = []
        for s in sc['runs']:
            sp = base_spec(s)
            if 'argv' in s: sp['argv'] = s['argv']
            if 'frac' in s or 'at' in s:
                if 'at' not in s:
                    rec = cx.run(dict(sp, inject=dict(exc='record')))
                    lo, hi, cl = window(rec)
                    at = pick_site(s['frac'], rec['sites'], lo, hi)
                else:
                    at = s['at']
                if at is not None:
                    sp['inject'] = dict(exc=s['exc'], at=at)
            specs.append(sp)
        fresh = [cx.run(sp) for sp in specs]
        hist = cx.history(specs)
        cx.nontrivial = any(f['status'] != 0 or f['interrupted'] for f in fresh[:-1]) or len({dumps(s['argv']) for s in specs}) > 1
        for i, (f, h) in enumerate(zip(fresh, hist)):
            need(h['stop'] is None, 'no-termination', f'run {i + 1}: {h["stop"]}')
            if 'inject' in specs[i]:
                # the exception is raised at the k-th line executed: only the same event if it is the same line at the same time
                if injection(h) != injection(f):
                    cx.hit('injection at another line in the history: not compared')
                    continue
                if specs[i]['inject']['exc'] == 'mem':
                    f, h = ({**x, 'out': x['out'].partition(b'Traceback')[0], 'err': x['err'].partition(b'Traceback')[0]} for x in (f, h))
            need(h['status'] == f['status'], 'history-status', f'run {i + 1} of {len(specs)} ({specs[i]["argv"]}): status {h["status"]} instead of {f["status"]}, stderr {short(h["err"])}')
            if h['out'] != f['out']:
                k = lcp(h['out'], f['out'])
                raise Violation('history-output', f'run {i + 1} of {len(specs)} ({specs[i]["argv"]}): output differs at byte {k}: {short(h["out"][k:k + 80])} instead of {short(f["out"][k:k + 80])}')
            need(norm_err(h['err']) == norm_err(f['err']), 'history-stderr', f'run {i + 1}: stderr {short(h["err"])} instead of {short(f["err"])}')


def injection(res):
    return [e[:4] for e in res['log'] if e[1] == 'inject']


def norm_err(b):
    return re.sub(b'0x[0-9a-f]{6,}', b'0x', b)


# ------------------------------------------------------------------------ C16

class C16(Check):
    id = 'C16'
    quick, thorough = 1100, 44000
    rule = ('terminal width schedules (tiny, zero, unknown, resized while the input arrives) x columns options x deliveries; non-trivial = at least two rows')

    def gen(self, r, i, tier):
        o = gen.options(r, 'b')
        o['w'] = r.choice([None, None, None, None, 0, -1, -7, 4, 16, 17])
        if i % 1100 == 5:   # offsets wider than the rest of their column: huge rows first, narrow ones behind the first million
            o['w'], o['f'] = r.choice([None, 0, -3]), 4096
            o['no_offsets'] = False
            n = 1000000 + r.randint(1, 3000)
            return mk(o, [['61', n]], gen.source(r), [], term=[[0, r.choice([20000, 40000, 40000])], [n, r.choice([44, 44, 45, 61])]], wider=1)
        inp = some_input(r, .12, 260)
        n = gen.size_of(inp)
        o['f'] = r.choice([None, 1, 8, 16, 32, 64, 100]) if n < 1500 else r.choice([None, 1024, 4096])
        W = [80, 79, 81, 27, 28, 26, 25, 1, 2, 3, 0, None, 10, 20, 40, 43, 44, 45, 60, 61, 120, 200, 1000]
        term = [[0, r.choice(W)]]
        at = 0
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            at += r.randint(1, max(1, n // 2))
            term.append([at, r.choice(W)])
        return mk(o, inp, gen.source(r), sched(r, inp), term=term, wider=r.choice([1, 2, 5, 17, 100]))

    def evaluate(self, sc, cx):
        o, data = sc['o'], data_of(sc)
        a = cx.run(base_spec(sc, limit=100000 + 4000 * (len(data) + 1)))
        ok(a)
        rows = check_dump(sc, o, data, a)
        cx.nontrivial = len(rows) >= 2
        auto = not o['w'] or o['w'] < 0
        if not auto:
            return
        # width in force when a row was printed: function of the input received
        seq = widths_at_rows(a, sc['term'])
        pts = []
        for k, row in enumerate(rows):
            cols = len(row.data) + row.pad
            need(cols > 0 and cols % 4 == 0, 'auto-cols', f'row {k} has {cols} columns')
            need(row.pad == 0 or k == len(rows) - 1, 'auto-cols', f'row {k} of {len(rows)} is not full')
            w = seq[k]
            base = row.width - len(row.data) * 4 - row.pad * 3   # without data
            need(row.width <= w or base + 16 > w, 'too-wide', f'row {k} is {row.width} wide on a {w} wide terminal')
            pts.append((w, cols, len(row.prefix or '')))
        for (w1, c1, p1) in set(pts):
            for (w2, c2, p2) in set(pts):
                need(not (w1 < w2 and c1 > c2 and p1 == p2), 'auto-cols', f'{c1} columns at width {w1}, but {c2} at width {w2}')
        if len(sc['term']) == 1 and rows:
            wider = (sc['term'][0][1] or 80) + sc['wider']
            b = cx.run(base_spec(dict(sc, term=[[0, wider]])))
            ok(b)
            rb = check_dump(sc, o, data, b)
            c = len(rb[0].data) + rb[0].pad
            need(c >= pts[0][1], 'auto-cols', f'{pts[0][1]} columns at width {pts[0][0]}, but {c} at width {wider}')
        if len({w for w, _, _ in pts}) > 1: cx.hit('rows of one run printed at different terminal widths')


def widths_at_rows(res, term):
    """Terminal width in force for every printed row."""
    out, got = [], 0
    text = res['out']
    pos = 0
    for e in res['log']:
        if e[1] == 'got' and e[3] > 0:
            got += e[3]
        elif e[1] == 'write' and e[2] == 'stdout':
            n = text[pos:e[3]].count(b'\n')
            w = term[0][1]
            for at, c in term:
                if got >= at: w = c
            out += [w or 80] * n
            pos = e[3]
    return out


# ------------------------------------------------------------------------ C17

class C17(Check):
    id = 'C17'
    quick, thorough = 4000, 160000
    rule = 'random inputs x options x debug level 1-4 x deliveries against the run without debug; non-trivial = at least two ordinary lines'

    def gen(self, r, i, tier):
        o = gen.options(r)
        o['D'] = r.choice([1, 2, 3, 4])
        inp = gen.small_input(r, r.choice([60, 160]), boost=['lf', r.choice(['sgr', 'ctl', 'esc', 'c1', 'utf8', 'cut', 'tab', 'ws'])])
        n = gen.size_of(inp)
        o['f'] = r.choice([None, None, None, 1, 3, 8, 64])
        if o['f'] and n / o['f'] > 60: o['f'] = 8
        if r.random() < .15: o['B'] = r.randint(1, n + 1)
        if r.random() < .15: o['L'] = r.randint(1, 3)
        return mk(o, inp, gen.source(r), sched(r, inp), term=[[0, r.choice([80, 80, 100, 60, 30])]], below=r.random() < .25)

    def evaluate(self, sc, cx):
        o = sc['o']
        a = cx.run(base_spec(sc))
        if sc.get('below') and o['D'] > 1:
            c = cx.run(base_spec(dict(sc, o=dict(o, D=o['D'] - 1))))
            u, v = (len(t.lines) - len(ordinary(t)) for t in (Screen(body(z['out'])) for z in (a, c)))
            need(u > v, 'debug-level', f'{u} diagnostic lines at level {o["D"]}, {v} at level {o["D"] - 1}')
        o0 = dict(o, D=0, no_offsets=False, no_line_numbers=False)
        b = cx.run(base_spec(dict(sc, o=o0)))
        ok(b, 'reference')
        need(a['status'] == b['status'] and a['err'] == b['err'], 'debug-status', f'status {a["status"]}, stderr {short(a["err"])}')
        x, y = Screen(body(a['out'])), Screen(body(b['out']))
        need(not x.bad, 'raw-control', f'line {x.bad[0][0] + 1}: {x.bad[0][1]}' if x.bad else '')
        lines = ordinary(x)
        cx.nontrivial = len(lines) >= 2
        size = len(data_of(sc))
        for ln in x.lines:
            need(ln.chars, 'diagnostics', 'an empty line')
            m = re.match(' *(0x[0-9a-f]{4,16})│', ln.text) if ln.styles[0][1] else None
            if m:
                cx.hit('diagnostics with an offset')
                need(int(m[1], 16) <= size, 'diagnostics', f'offset {m[1]} in the input of {size} bytes: {short(ln.text)}')
        for i, (p, q) in enumerate(zip(lines, y.lines)):
            need(p.text.find('│') >= 8, 'debug-prefix', f'line {i + 1}: prefix is narrower than 8: {short(p.text)}')
            if gen.is_binary(o):
                u, v = parse_row(p, True), parse_row(q, True)
                need(u.total == v.total and offset_value(u.prefix, o) == offset_value(v.prefix, o), 'debug-output', f'row {i + 1}: {short(p.text)} instead of {short(q.text)}')
                if not u.total:
                    need((u.data, u.chars, u.chst, u.hexst, u.pad) == (v.data, v.chars, v.chst, v.hexst, v.pad), 'debug-output', f'row {i + 1}: {short(p.text)} instead of {short(q.text)}')
            else:
                nu, cu = text_content(p, True)
                nv, cv = text_content(q, True)
                need(nu == nv, 'debug-output', f'line {i + 1} has number {nu}')
                cmp_cells(cu, cv, 'debug-output', f'line {i + 1}')
            need(p.end is not None, 'debug-output', f'line {i + 1} has no line break')
        need(len(lines) == len(y.lines), 'debug-output', f'{len(lines)} ordinary lines instead of {len(y.lines)}')


# ------------------------------------------------------------------------ C18

OPTION_NAMES = ('--demo --text --binary --legend --version --help --focus-space --focus-control --focus-printable --focus-esc --focus-utf8 --focus-binary '
                '--ignore-space --ignore-control --ignore-printable --ignore-esc --ignore-utf8 --ignore-binary --buffer --max-lines --max-bytes --debug '
                '--color-markers --marker --no-separators --no-line-numbers --columns --decode --decimal-offsets --no-offsets').split()
USAGE_ERRORS = [['--nope'], ['-m', 'x'], ['-m'], ['-t', '-b'], ['-b', '-l'], ['-t', '--legend'], ['-s', '-S'], ['-c', '-C'], ['-p', '-P'], ['-e', '-E'], ['-u', '-U'],
                ['-i', '-I'], ['--demo', '@F@'], ['@F@', '@F@'], ['-f', '1.5'], ['-w', ''], ['-B', '1k'], ['-L', '-'], ['--decimal-offsets', '--no-offsets'], ['-Z'],
                ['--text=1'], ['-v', '--wrong'], ['--demo', '-f', 'q'], ['@F@', '--columns', 'auto'], ['-x', '@F@'], ['--legend', '@F@', 'x'], ['-D', '-D', '--nah']]


def repo_file(name):
    with open(os.path.join(_repo(), 'kolombos', name), 'rb') as f:
        return f.read()


def _repo():
    from . import world
    return world.REPO


class C18(Check):
    id = 'C18'
    quick, thorough = 1000, 40000
    level = 'fault_enumeration'
    rule = ('auxiliary modes and rejected command lines x accompanying options x state of stdin (would block, fails, closed, absent) x files that are missing or '
            'would block x write failures; non-trivial = every scenario (stdin or the file is hostile in all of them)')

    def gen(self, r, i, tier):
        mode = r.choice(['help', 'version', 'legend', 'legend', 'demo', 'demo', 'demo', 'usage'])
        sc = dict(kind=mode, inp=[['6162630a', 1]], src=r.choice(['file', 'fifo']), stdin=r.choice(['poison', 'stuck', 'closed', 'absent']), plan=[], o=dict(DEFAULT_O))
        extra = []
        if mode == 'usage':
            a = list(r.choice(USAGE_ERRORS))
            if r.random() < .3: a = ['--color-markers'] + a
        elif mode == 'demo':
            o = gen.options(r)
            o['mode'] = r.choice(['', '', 't', 'b'])
            o['D'] = r.choice([0, 0, 0, 0, 1, 3])
            o['f'] = r.choice([None, None, 1, 7, 100])
            if r.random() < .3: o['B'] = r.choice([1, 16, 100, 639, 640, 1000])
            if r.random() < .2: o['L'] = r.choice([1, 2, 3])
            sc['o'] = o
            sc['term'] = [[0, r.choice([80, 60, 33, 120, 200, 400])]]
            sc['flag'] = [r.choice(['--demo', '-M']), r.random()] if not o['long'] else ['--demo', 1]
            a = None
        else:
            flag = dict(help=['-h', '--help'], version=['-v', '--version'], legend=['-l', '--legend'])[mode]
            extra = [x for x in ('-d', '--no-separators', '--no-offsets', '-m2', '-c', '-S', '--color-markers', '-D', '-f1', '-B0', '-L3', '-w8') if r.random() < .12]
            if mode == 'help' and r.random() < .3: extra.append(r.choice(['-v', '-l', '-M']))
            if mode == 'version':
                if r.random() < .3: extra.append('--demo')
                elif r.random() < .4: extra.append('@F@')
                if r.random() < .3: extra.append(r.choice(['-t', '-b']))
            if mode == 'legend':
                if r.random() < .4: extra.append('-v')
                if r.random() < .3: extra.append('--demo')
                elif r.random() < .4: extra.append(r.choice(['@F@', '-', 'missing-file', '/nonexistent/dir/file']))
            a = extra + [r.choice(flag)]
            r.shuffle(a)
        sc['argv'] = a
        if mode in ('version', 'legend', 'demo') and r.random() < .5:
            size = dict(version=60, legend=24000, demo=12000)[mode]
            if r.random() < .2:
                sc['out'] = dict(mode=r.choice(['buffered', 'line', 'unbuffered']), enc=r.choice(['ascii', 'latin-1', 'koi8-r']))
            else:
                m = r.choice(['buffered', 'line', 'unbuffered'])
                sc['out'] = dict(mode=m, faults=sorted([[r.choice([0, 1, r.randint(0, 60), r.randint(0, size), r.randint(0, size)]),
                                                          r.choice(['full', 'pipe', 'eio', 'eio1', 'eagain'])] for _ in range(r.choice([1, 1, 2]))]))
        elif r.random() < .3:
            sc['out'] = dict(mode=r.choice(['buffered', 'line', 'unbuffered']), tty=r.random() < .5)
        return sc

    def evaluate(self, sc, cx):
        kind, o = sc['kind'], sc['o']
        if kind == 'demo':
            a = gen.argv(o, 'stdin')
            a.insert(int(sc['flag'][1] * len(a)), sc['flag'][0])
            sc = dict(sc, argv=a)
        spec = dict(argv=sc['argv'], input=sc['inp'], source=sc['src'], plan=sc['plan'], stdin=sc['stdin'], tail='stuck')
        if sc.get('term'): spec['term'] = sc['term']
        clean = {k: v for k, v in (sc.get('out') or {}).items() if k in ('mode', 'tty')}
        a = cx.run(dict(spec, out=clean))
        cx.nontrivial = True
        self.untouched(a, sc)
        cx.hit(kind)
        text = decode(a['out'])
        if kind == 'usage':
            need(a['status'] == 2, 'usage-status', f'{sc["argv"]}: status {a["status"]} instead of 2, stderr {short(a["err"])}')
            need('usage' in strip(a['err'].decode()).lower(), 'usage-message', f'{sc["argv"]}: no usage on stderr: {short(a["err"])}')
            return
        need(a['status'] == 0 and not a['err'], 'status', f'{sc["argv"]}: status {a["status"]}, stderr {short(a["err"])}')
        if kind == 'help':
            plain = strip(text)
            for w in OPTION_NAMES + ['USAGE', 'kolombos', 'EXAMPLES']:
                need(w in plain, 'help', f'{sc["argv"]}: the help does not mention {w}')
            need(text.endswith('\n'), 'help', 'the help is cut')
        elif kind == 'version':
            import kolombos.version
            import pytermor
            w = [['es7s/kolombos', kolombos.version.__version__], ['pytermor', pytermor.__version__]]
            need([ln.split() for ln in strip(text).splitlines() if ln.strip()][:2] == w, 'version', f'{sc["argv"]}: {short(text)}')
        elif kind == 'legend':
            want = ''.join(x for x in repo_file('legend.ansi').decode().splitlines(keepends=True) if not x.startswith('#'))
            need(text.rstrip('\n') == want.rstrip('\n'), 'legend', f'{sc["argv"]}: the output is not the legend: differs after {lcp(text, want)} chars')
        elif kind == 'demo':
            self.demo(sc, a, o, cx)
        out = sc.get('out') or {}
        if 'faults' in out or 'enc' in out:
            b = cx.run(dict(spec, out=out))
            self.untouched(b, sc)
            enc = out.get('enc', 'utf-8')
            if not b['output_failed'] and b['out'] == text.encode(enc, 'replace') and encodable(text, enc):
                need(b['status'] == 0, 'spurious', f'{sc["argv"]}: status {b["status"]} although nothing failed')
                return
            need(b['status'] != 0, 'false-success', f'{sc["argv"]}: status 0 although the output could not be written')
            t = lenient(b['out'], enc)
            if o['D']: return
            k = prefix_plus_notice(t, body(a['out']))
            need(k is not None or text.startswith(t), 'corrupted', f'{sc["argv"]}: what was written is not a prefix: {short(t[lcp(t, text):])}')

    def untouched(self, a, sc):
        used = [e for e in a['log'] if e[1] in ('req', 'rawread', 'poison', 'seek') or e[1] == 'open']
        need(not used, 'touched', f'{sc["argv"]}: the input is used: {used[:1]}')
        miss = [e for e in a['log'] if e[1] == 'foreign' and ('missing-file' in e[2] or 'nonexistent' in e[2])]
        need(not miss, 'touched', f'{sc["argv"]}: the file is opened')
        need(not a['foreign_writes'] and not a['dir_changed'], 'writes', f'{sc["argv"]}: {a["foreign_writes"]}')

    def demo(self, sc, a, o, cx):
        sample = repo_file('demo.bin')
        o2 = dict(o)
        if o['mode'] == '': o2['mode'] = 'b'
        if gen.is_binary(o2) or True:
            o2['decode'] = True
            if o['w'] is None: o2['w'] = 16
        data = model.limited(sample, o2)
        txt = body(a['out'])
        i = txt.rfind('\n', 0, txt.rfind('--legend'))
        need('--legend' in txt[i:] and i > 0, 'demo', f'{sc["argv"]}: no reference to the legend at the end: {short(txt[-80:])}')
        shown = dict(a, out=txt[:i].encode() + b'\n')
        if o['D']:
            lines = ordinary(Screen(txt[:i]))
            if gen.is_binary(o2):
                rows = [x for x in parse_dump(lines, o2) if not x.total]
                need(b''.join(x.data for x in rows) == data, 'demo', f'{sc["argv"]}: the demo shows other bytes')
            return
        if gen.is_binary(o2):
            rows = check_dump(sc, o2, data, shown, 'demo')
            if o['w'] == 0:      # row length by the terminal: as with any other file
                b = cx.run(dict(argv=gen.argv(dict(o2, B=None, L=None, w=0), 'file'), input=[[data.hex(), 1]], source='file', plan=[], term=sc['term']))
                x, y = [len(e.data) for e in rows], [len(e.data) for e in check_dump(sc, o2, data, b, 'demo')]
                need(x == y, 'demo', f'{sc["argv"]}: rows are {x[:3]} bytes long, those of the same file are {y[:3]}')
            cmp_binary(o2, data, shown, 'demo')
        else:
            cmp_text(o2, data, shown, 'demo')


def encodable(t, enc):
    try:
        t.encode(enc)
        return True
    except UnicodeEncodeError:
        return False
