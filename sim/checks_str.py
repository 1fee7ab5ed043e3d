"""C24: string filters and padding; C25: formatters of numbers."""
import math
import re
from fractions import Fraction

from . import lib
from .checks_io import Check
from .checks_lib import LIBCOMP, history, note_lib, some_inject, some_turns, step_results
from .common import *

PARAMS = {'sgr': '0123456789;', 'csi': '0123456789;:<=>?'}
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def found(kind, arg, s, i):
    """Length and groups of what a filter of this kind matches at the position."""
    if kind in PARAMS:
        if s[i:i + 2] != '\x1b[': return 0, []
        j = i + 2
        while j < len(s) and s[j] in PARAMS[kind]: j += 1
        if j < len(s) and s[j] in ('m' if kind == 'sgr' else LETTERS + '@'):
            p = s[i + 2:j]
            return j + 1 - i, ['\x1b', '[', p, p[-1:], s[j]]
        return 0, []
    if kind == 'ws': return int(s[i].isspace()), ['\n' if s[i] == '\n' else '']
    if kind == 'bytes': return int(s[i] >= 128), []
    if kind == 'lit': return (len(arg) if s[i:i + len(arg)] == arg else 0), []
    if kind == 'set': return int(s[i] in arg), []


class CallbackFails(Exception):
    pass


def filtered(f, s):
    kind, arg, repl = f
    isb = isinstance(s, bytes)
    out, i = [], 0
    while i < len(s):
        n, groups = found(kind, arg, s, i)
        if not n:
            out.append(s[i:i + 1])
            i += 1
            continue
        t = s[i:i + n]
        if isinstance(repl, tuple):
            if repl[1] == 'fail' and len(t) == 1 and t in 'Xx': raise CallbackFails
            out.append(t.upper() if repl[1] == 'upper' else t + t if repl[1] == 'twice' else f'<{len(t)}>')
        elif isb: out.append(repl)
        else:
            r = repl + '\\1' if kind == 'ws' else repl
            out.append(re.sub(r'\\(\d)', lambda m: groups[int(m[1]) - 1], r))
        i += n
    return (b'' if isb else '').join(out)


DEFAULTS = {'ReplaceSGR': ('sgr', None, ''), 'ReplaceCSI': ('csi', None, ''), 'ReplaceNonAsciiBytes': ('bytes', None, b'?'), 'VisualuzeWhitespace': ('ws', None, '·')}
TOKENS = ['abc', 'X', 'x', ' ', '  ', '\n', '\t', '\r\n', '\u00a0', '\u2003', '\x0b', 'é', '🔋', 'я', 'm', '[0m', '[31m', '\x1b', '\x1b[', '\x1b[31', '\x1b[3;', '\x1b[?', '\\1', '.', 'ab', '0',
          '\x1b[m', '\x1b[0m', '\x1b[31m', '\x1b[1;4m', '\x1b[38;5;120m', '\x1b[38;2;1;2;3m', '\x1b[;m', '\x1b[2J', '\x1b[?25l', '\x1b[10;20H', '\x1b[@', '\x1b[=3h', '\x1b[38:5:1m',
          'abcdefghijklmnop', 'abcdefghijklmnopq', 'abcdefghijklmnoX', 'AB', '\x1b\x1b[7m', '\x1b[1m\x1b[22m', '\x1b]0;t\x07', '\x1b[٣m', '\x9b1m', '\x00', '\x7f', '\x1b[ m', '\x1bM', '\x1b(B', '\x1b[\x1b[4m']


class C24(Check):
    id = 'C24'
    quick, thorough = 6000, 240000
    rule = ('histories in which filters of every kind are made with random replacements, shared and applied (one by one, called, or as a pipeline of filters and classes) to texts '
            'with whole, broken and adjacent sequences, callbacks fail, wrong types are rejected, texts are padded, by one client and by groups of threads switched at arbitrary '
            'source lines, with interrupts and allocation failures inside of operations; non-trivial = something was filtered after a failure, by several clients, or by a filter used before')
    components = LIBCOMP
    assumptions = ['CSI sequences with intermediate bytes or a final character other than @ and letters are not generated (the library does not recognise them).',
                   'Replacements contain no backslashes other than references to groups.']

    def text(self, r): return ''.join(r.choice(TOKENS) for _ in range(history(r, [0, 1, 2, 4, 8, 20, 60], .01, [400, 3000])))

    def make(self, r, k):
        x = r.random()
        rep = r.choice(['', '_', '·', '<>', 'esc', 'é'])
        if x < .2: return ['fl_new', k, 'ReplaceSGR', [r.choice([rep, 'E\\2\\3\\5', '\\3', '\\1\\1', '(\\4)'])]], ['sgr', None]
        if x < .4: return ['fl_new', k, 'ReplaceCSI', [r.choice([rep, 'E\\2\\3\\5', '\\3', '\\5', '(\\4)'])]], ['csi', None]
        if x < .5: return ['fl_new', k, 'ReplaceNonAsciiBytes', [['b', r.choice([b'', b'?', b'..', b'\xff']).hex()]]], ['bytes', None]
        if x < .65: return ['fl_new', k, 'VisualuzeWhitespace', [r.choice([rep, '.', '␣'])]], ['ws', None]
        repl = rep if r.random() < .5 else ['fn', r.choice(['upper', 'twice', 'len', 'fail', 'fail'])]
        if x < .85:
            lit = r.choice(['ab', 'a', '[0m', '\x1b[31m', '.', 'X', '\\1', ' ', 'AB', 'A', '\x1b[31', '\x1b[3', 'abcdefghijklmnop', 'abcdefghijklmnopq', 'abcdefghijklmnoX', 'abcdefghijklmno'])
            pat, m = re.escape(lit), ['lit', lit]
        else:
            cs = r.choice(['xX0123456789', 'xX', 'x', '0123456789', '\n ', 'é'])
            pat, m = '[%s]' % cs, ['set', cs]
        return ['fl_new', k, 'StringFilter', [['rx', pat] if r.random() < .5 else pat, repl]], m

    def read(self, r, fs):
        x = r.random()
        if x < .25: return ['fl_pad', r.choice(['ljust', 'rjust', 'center']), ''.join(t for t in (r.choice(TOKENS) for _ in range(r.choice([0, 1, 3, 8]))) if '٣' not in t),
                            r.choice([-1, 0, 1, 5, 10, 11, 40, r.randint(0, 200)]), r.choice([None, None, '.', '-'])]
        isb = r.random() < .25
        ks = [k for k, m in fs.items() if (m[0] == 'bytes') == isb]
        s = self.text(r)
        if r.random() < .06: isb = not isb       # the wrong type
        if isb: s = ['b', (s.encode()[:r.randint(0, 99)] + bytes(r.choice([[], [0x80], [0xff, 0x7f], range(120, 140)]))).hex()]
        return ['fl_use', [r.choice(ks) for _ in range(r.choice([1, 1, 1, 2, 3]))], s, r.choice(['pipe', 'pipe', 'call', 'apply'])]

    def gen(self, r, i, tier):
        fs = {n: [m[0], m[1]] for n, m in DEFAULTS.items()}
        steps = []
        for k in range(history(r, [3, 6, 12, 25])):
            x = r.random()
            inj = some_inject(r, .15, 20)
            if x < .3:
                o, m = self.make(r, k)
                if inj: steps.append(['op', o, inj])
                steps.append(['op', o, None])
                fs[k] = m
            elif x < .5:
                n = r.choice([2, 3])
                steps.append(['par', [[self.read(r, fs) for _ in range(r.choice([1, 2, 4]))] for _ in range(n)], some_turns(r, n)])
            else: steps.append(['op', self.read(r, fs), inj])
        return dict(steps=steps, kinds={str(k): m for k, m in fs.items() if isinstance(k, int)})

    def evaluate(self, sc, cx):
        res = note_lib(cx, lib.run_lib(sc))
        fs, used, relevant = dict(DEFAULTS), set(), 0
        troubled = False
        for k, ci, o, got, inj in step_results(sc, res):
            w = f'step {k}' + (f', client {ci}' if ci is not None else '') + f', {o}'
            if inj and got[0] == 'exc' and got[1] in ('KeyboardInterrupt', 'MemoryError'):
                cx.hit('operation cut')
                troubled = True
                continue
            if o[0] == 'fl_new':
                need(got[0] == 'ok', 'exception', f'{w}: {got[1:]}')
                rep = o[3][-1]
                if isinstance(rep, list): rep = bytes.fromhex(rep[1]) if rep[0] == 'b' else tuple(rep)
                fs[o[1]] = (*sc['kinds'][str(o[1])], rep)
            elif o[0] == 'fl_pad':
                need(got[0] == 'ok', 'exception', f'{w}: {got[1:]}')
                need(isinstance(got[1], str), 'wrong-type', f'{w}: {got[1]!r}')
                self.padded(got[1], *o[1:], w)
            else:
                s = bytes.fromhex(o[2][1]) if isinstance(o[2], list) else o[2]
                if any(f not in fs for f in o[1]): continue     # cut away
                if any((fs[f][0] == 'bytes') != isinstance(s, bytes) for f in o[1]):
                    need(got[0] == 'exc' and got[1] == 'TypeError', 'wrong-type', f'{w}: {got}')
                    cx.hit('wrong type')
                    troubled = True
                    continue
                try:
                    for f in o[1]: s = filtered(fs[f], s)
                except CallbackFails:
                    need(got[0] == 'exc' and got[1] == 'LookupError', 'callback-error', f'{w}: {got}')
                    cx.hit('callback failed')
                    troubled = True
                    continue
                if troubled or ci is not None or used & set(o[1]): relevant += 1
                used |= set(o[1])
                need(got[0] == 'ok', 'exception', f'{w}: {got[1:]}')
                need(isinstance(got[1], (str, list)), 'wrong-type', f'{w}: {got[1]!r}')
                v = got[1] if isinstance(got[1], str) else bytes.fromhex(got[1][1])
                need(v == s, 'filtered', f'{w}: {v!r} instead of {s!r}')
        cx.nontrivial = relevant > 0
        if res['switches']: cx.hit('threads interleaved')

    def padded(self, v, how, s, width, fill, w):
        fill = fill or ' '
        n = max(0, width - len(filtered(DEFAULTS['ReplaceSGR'], s)))
        i = len(v) - len(s)
        need(i == n, 'padding', f'{w}: {v!r} has {i} more characters instead of {n}')
        left = 0 if how == 'ljust' else n if how == 'rjust' else None
        ok = [x for x in ([left] if left is not None else [n // 2, n - n // 2]) if v == fill * x + s + fill * (n - x)]
        need(ok, 'padding', f'{w}: {v!r}')


# ------------------------------------------------------------------------ C25

NUMBER = re.compile(r'(-?)(\d*)(?:\.(\d+))?(?:e(-?\d+))?')
SI = ['y', 'z', 'a', 'f', 'p', 'n', 'μ', 'm', None, 'k', 'M', 'G', 'T', 'P', 'E', 'Z', 'Y']
PRESET = {'metric': dict(max_value_len=4, truncate_frac=False, unit='m', unit_separator=' ', mcoef=1000.0, prefixes=SI, prefix_zero_idx=8),
          'binary': dict(max_value_len=5, truncate_frac=True, unit='b', unit_separator=' ', mcoef=1024.0, prefixes=SI, prefix_zero_idx=8)}


def exponent_of(a):
    """The decimal exponent (of the shortest notation of a float)."""
    a, e = Fraction(repr(a)) if isinstance(a, float) else Fraction(a), 0
    while a >= 10: a, e = a / 10, e + 1
    while a < 1: a, e = a * 10, e - 1
    return e


def denotes(t, value, room, what, slack=0):
    """The text is the value rounded to the digits shown (or cut, if the rounded one is too long), with no digit missing for which there is room."""
    m = NUMBER.fullmatch(t)
    need(m and (m[2] or m[4] and not m[3]), 'not-a-number', f'{what}: {t!r}')
    a = abs(Fraction(value))
    need((m[1] == '-') == (value < 0), 'sign', f'{what}: {t!r}')
    e = int(m[4] or 0)
    if not m[2]:
        carry = exponent_of(a * (1 + Fraction(1, 10 ** 12))) != exponent_of(a)
        need(a and (exponent_of(a) == e or carry and exponent_of(a) + 1 == e), 'denotes', f'{what}: {t!r}')
        need(len(t) == room or carry, 'digits', f'{what}: {t!r} has room for more digits')
        return
    ulp = Fraction(10) ** (e - len(m[3] or ''))
    x = int(m[2] + (m[3] or '')) * ulp
    tol = a * Fraction(1, 10 ** 13) + slack
    if abs(x - a) > ulp / 2 + tol:
        digits = len(m[2] + (m[3] or ''))
        need(a - tol <= x + ulp and x <= a + tol and x + ulp >= Fraction(10) ** (digits - len(m[3] or '') + e), 'denotes', f'{what}: {t!r} does not denote {value!r}')
    used = len(t)
    need(used <= room, 'too-long', f'{what}: {t!r} is longer than {room}')
    if m[3]: need(used == room, 'digits', f'{what}: {t!r} has room for more digits')
    else: need(used >= room - 1, 'digits', f'{what}: {t!r} has room for more digits')


class C25(Check):
    id = 'C25'
    quick, thorough = 6000, 240000
    rule = ('histories in which formatters with random prefixes, bases and widths are made, shared and used, next to the ready-made ones and the plain number formatter, for values around '
            'powers of ten and of the base, rounding carries, tiny and negative ones, by one client and by groups of threads switched at arbitrary source lines, with interrupts and '
            'allocation failures inside of operations; non-trivial = a formatter was used again, by several clients, or after an interrupted or rejected call')
    components = LIBCOMP
    assumptions = ['Formatters have room for every value below their base, and values are within the range of their prefixes.', 'Values are finite and not subnormal.']

    def value(self, r):
        x = r.random()
        if x < .06: return r.choice([0, 0.0, 1, -1, 10, 1e-3, 1024, 1023, -1024, 1000])
        e = r.choice([0, 0, 1, 2, 3, 4, 5, -1, -2, -3, -4, 6, 9, 12, 15, 18, -6, -9, -15, 21, 23])
        if x < .25: v = 10.0 ** e * r.choice([1, 1, .1, 10])
        elif x < .4: v = 1024.0 ** (e // 3) * r.choice([1, 1, 1023 / 1024, 1023.99 / 1024, 999 / 1024])
        elif x < .6: v = 10.0 ** e * (1 - r.choice([.5, .4, .6, .05, .051, .049, 1]) * 10.0 ** -r.randint(1, 8))
        elif x < .8: v = r.randint(1, 9999) * 10.0 ** e * r.choice([1, .5, 1e-3])
        else: v = r.uniform(1, 10) * 10.0 ** e
        if r.random() < .2: v = math.nextafter(v, r.choice([0, math.inf]))
        if r.random() < .2 and abs(v) < 1e15: v = int(v) or 1
        return -v if r.random() < .3 else v

    def formatter(self, r):
        b = r.choice([1000, 1000, 1024, 100])
        kw = dict(max_value_len=r.choice([5, 5, 6, 8, 10]), truncate_frac=r.random() < .3, unit=r.choice([None, 'b', 'bit', 'V']), unit_separator=r.choice([None, ' ', ' ', '_']), mcoef=float(b))
        kw['prefixes'], kw['prefix_zero_idx'] = r.choice([(SI, 8), ([None, 'k', 'M', 'G', 'T'], 0), ([None, 'Ki', 'Mi', 'Gi'], r.choice([0, None])), (['u', 'm', None], 2), (['n', 'u', 'm', '', 'kilo', 'M'], 3)])
        return kw

    def read(self, r, fs):
        x = r.random()
        if x < .45: return ['nf_af', self.value(r), r.choice([0, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 12]), r.choice([None, True, False])]
        if x < .5: return ['nf_sep', self.value(r) if r.random() < .5 else r.randint(-10 ** r.randint(1, 12), 10 ** r.randint(1, 12)), r.choice([None, ',', ' ', "'", ''])]
        k = r.choice(fs)
        return ['nf_use', k, self.value(r), r.choice([None, None, 'g', 'bps'])]

    def gen(self, r, i, tier):
        fs = list(PRESET)
        steps = []
        for k in range(history(r, [3, 6, 12, 25])):
            x = r.random()
            inj = some_inject(r, .15, 40)
            if x < .2:
                o = ['nf_new', k, self.formatter(r)]
                if inj: steps.append(['op', o, inj])
                steps.append(['op', o, None])
                fs.append(k)
            elif x < .4:
                n = r.choice([2, 3])
                steps.append(['par', [[self.read(r, fs) for _ in range(r.choice([1, 2, 4]))] for _ in range(n)], some_turns(r, n)])
            else: steps.append(['op', self.read(r, fs), inj])
        return dict(steps=steps)

    def evaluate(self, sc, cx):
        res = note_lib(cx, lib.run_lib(sc))
        fs, lens, used, relevant, troubled = dict(PRESET), {}, set(), 0, False
        for k, ci, o, got, inj in step_results(sc, res):
            w = f'step {k}' + (f', client {ci}' if ci is not None else '') + f', {o}'
            if inj and got[0] == 'exc' and got[1] in ('KeyboardInterrupt', 'MemoryError'):
                cx.hit('operation cut')
                troubled = True
                continue
            if o[0] == 'nf_af':
                if troubled or ci is not None: relevant += 1
                if self.plain(got, o[1], o[2], o[3] is not False, w) == 'rejected': troubled = True
                continue
            if o[0] == 'nf_use' and o[1] not in fs: continue     # cut away
            if o[0] == 'nf_new' and (o[2]['max_value_len'] < 5 or o[2]['mcoef'] < 100): continue     # minimised too much
            if o[0] == 'nf_use' and self.beyond(fs[o[1]], o[2]):
                need(got[0] == 'ok' or got[1] == 'ValueError', 'exception', f'{w}: {got[1:]}')
                f = fs[o[1]]
                unit = o[3] or f['unit'] or ''
                if got[0] == 'ok':
                    need(isinstance(got[1], str), 'wrong-type', f'{w}: {got[1]!r}')
                    need(got[1].endswith(unit), 'unit', f'{w}: {got[1]!r}')
                    need(len(got[1]) <= f['max_value_len'] + len(f['unit_separator'] or '') + len(unit) + max(len(p or '') for p in f['prefixes']), 'too-long', f'{w}: {got[1]!r}')
                cx.hit('out of range')
                continue
            need(got[0] == 'ok', 'exception', f'{w}: {got[1:]}')
            v = got[1]
            need(isinstance(v, int if o[0] == 'nf_new' else str), 'wrong-type', f'{w}: {v!r}')
            if o[0] == 'nf_new': fs[o[1]], lens[o[1]] = o[2], v
            elif o[0] == 'nf_sep':
                sep = ' ' if o[2] is None else o[2]
                s = str(o[1]) if isinstance(o[1], int) else f'{o[1]!r}'
                need(v.replace(sep, '') == s.replace(sep, '') if sep else v == s, 'digits', f'{w}: {v!r}')
                if sep:
                    head = re.match(r'-?(\d*)', s)[1]
                    n = len(head)
                    need(v.lstrip('-').startswith(sep.join(([head[:n % 3]] if n % 3 else []) + [head[j:j + 3] for j in range(n % 3, n, 3)])), 'groups', f'{w}: {v!r}')
            else:
                if troubled or ci is not None or o[1] in used: relevant += 1
                used.add(o[1])
                self.prefixed(v, fs[o[1]], o[2], o[3], lens.get(o[1]), w, cx)
        cx.nontrivial = relevant > 0
        if res['switches']: cx.hit('threads interleaved')

    def beyond(self, f, value):
        """No prefix fits (or parts of indivisible units)."""
        base, zero, a = Fraction(f['mcoef']), f['prefix_zero_idx'] or 0, abs(Fraction(value))
        if not a: return False
        if f['truncate_frac'] and a < 1: return True
        return not base ** -zero * (1 + Fraction(1, 10 ** 9)) <= a < base ** (len(f['prefixes']) - zero) * (1 - Fraction(1, 10 ** 9))

    def plain(self, got, value, n, exp, w):
        room = n - (value < 0)
        e = exponent_of(abs(value)) if value else 0
        if room > 0 and not exp and e > room - 1 and not (abs(value) < 1 and room == 1):
            need(got[0] == 'exc' and got[1] == 'ValueError', 'must-be-rejected', f'{w}: {got}')
            return 'rejected'
        need(got[0] == 'ok', 'exception', f'{w}: {got[1:]}')
        v = got[1]
        need(isinstance(v, str), 'wrong-type', f'{w}: {v!r}')
        need(len(v) == n, 'length', f'{w}: {v!r} has {len(v)} characters instead of {n}')
        if room <= 0: return need(v == '!' * n, 'overflow', f'{w}: {v!r}')
        if abs(value) < 1 and room == 1: return need(v == ('-' if value < 0 else '') + '0', 'denotes', f'{w}: {v!r}')
        if value == 0: return need(v.strip() == '0', 'denotes', f'{w}: {v!r}')
        t = v.lstrip(' ')
        power = exp and (e < -2 or e > room - 1)
        if power and room < len(str(e)) + 1: return need(v == '!' * n, 'overflow', f'{w}: {v!r}')
        need(('e' in t) == power, 'notation', f'{w}: {v!r}')
        denotes(t, value, n, w)

    def prefixed(self, v, f, value, unit, limit, w, cx):
        units = unit or f['unit'] or ''
        sep = f['unit_separator'] or ''
        base, zero = Fraction(f['mcoef']), f['prefix_zero_idx'] or 0
        ps = [p or '' for p in f['prefixes']]
        if unit is None and limit is not None: need(len(v) <= limit, 'too-long', f'{w}: {v!r} is longer than {limit}')
        need(len(v) <= f['max_value_len'] + len(sep) + len(units) + max(map(len, ps)), 'too-long', f'{w}: {v!r}')
        m = re.match(r'-?[\d.]+', v)
        need(m, 'not-a-number', f'{w}: {v!r}')
        num, rest = m[0], v[m.end():]
        match = [i for i, p in enumerate(ps) if rest == sep + (p + units).strip()]
        need(match, 'unit', f'{w}: {v!r} has a wrong unit')
        i = match[0]
        x = Fraction(value) / base ** (i - zero)
        if not value: return need(i == zero and not float(num), 'denotes', f'{w}: {v!r}')
        need(1 - Fraction(1, 10 ** 12) <= abs(x) < base * (1 + Fraction(1, 10 ** 12)), 'prefix', f'{w}: {v!r} has a wrong prefix')
        if f['truncate_frac'] and i == zero: return need(num == str(int(value)), 'denotes', f'{w}: {v!r}')
        denotes(num, x, f['max_value_len'], w)
