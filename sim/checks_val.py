"""Values of the library: C23 (sequences and spans) and C26 (styles and what the renderers make of them)."""
import re

from . import lib
from .checks_io import Check
from .checks_lib import (CODES16, FORMATS, LIBCOMP, NAMES, PAL16, PAL256, WORDS, allowed_codes, channels, check_render, from_debug, history, note_lib, some_color,
                         some_hex, some_inject, some_text, some_turns, step_results)
from .common import *
from .term import ATTR_OFF, ATTR_ON, PLAIN, sgr

BASE8 = ['BLACK', 'RED', 'GREEN', 'YELLOW', 'BLUE', 'MAGENTA', 'CYAN', 'WHITE']
INT = dict(RESET=0, BOLD=1, DIM=2, ITALIC=3, UNDERLINED=4, BLINK_SLOW=5, BLINK_FAST=6, INVERSED=7, HIDDEN=8, CROSSLINED=9, DOUBLE_UNDERLINED=21, OVERLINED=53,
           BOLD_DIM_OFF=22, ITALIC_OFF=23, UNDERLINED_OFF=24, BLINK_OFF=25, INVERSED_OFF=27, HIDDEN_OFF=28, CROSSLINED_OFF=29, COLOR_OFF=39, BG_COLOR_OFF=49,
           OVERLINED_OFF=55)
for k, n in enumerate(BASE8):
    INT[n], INT['BG_' + n] = 30 + k, 40 + k
    INT['HI_' + n if k else 'GRAY'], INT['BG_HI_' + n if k else 'BG_GRAY'] = 90 + k, 100 + k
ON = [n for n, c in INT.items() if c in ATTR_ON or 30 <= c < 38 or 40 <= c < 48 or c >= 90]
FULL = ('35', '45', frozenset(ATTR_ON.values()))
HALF = ('5:200', '2:1:2:3', frozenset(['italic', 'blink', 'over', 'under', 'bold']))
TWINS = {frozenset(v) for v in ATTR_OFF.values() if len(v) > 1}


def opened(params):
    """Attributes which a sequence turns on."""
    r, p, i = set(), list(params), 0
    while i < len(p):
        c = p[i]
        i += 1
        if c in ATTR_ON: r.add(ATTR_ON[c])
        elif 30 <= c <= 37 or 90 <= c <= 97: r.add('fg')
        elif 40 <= c <= 47 or 100 <= c <= 107: r.add('bg')
        elif c in (38, 48):
            r.add('fg' if c == 38 else 'bg')
            i += 2 if p[i:i + 1] == [5] else 4 if p[i:i + 1] == [2] else 0
    return r


def get(st, key): return st[0] if key == 'fg' else st[1] if key == 'bg' else key in st[2]


def well_formed(params):
    """Every extended colour is complete."""
    p = list(params)
    while p:
        c = p.pop(0)
        if c in (38, 48):
            n = {5: 2, 2: 4}.get(p[0] if p else None, 99)
            if len(p) < n or max(p[1:n]) > 255: return False
            del p[:n]
    return True


def check_closing(op, cl, w):
    if not well_formed(op): return
    on = opened(op)
    for base in (PLAIN, FULL, HALF):
        s1 = sgr(base, op) if op else base
        s2 = sgr(s1, cl) if cl else s1
        for key in ('fg', 'bg', *ATTR_ON.values()):
            if key in on:
                need(not get(s2, key), 'not-closed', f'{w}: {key} is still on after {cl} for the opening {op}')
            elif get(s2, key) != get(s1, key):
                need(any(key in t and t & on for t in TWINS), 'closes-other', f'{w}: {cl} also changes {key}, which the opening {op} does not set')


def assembled(params): return '\x1b[%sm' % ';'.join(map(str, params)) if params else ''


def same_seq(s, params):
    if not params: return s == ''
    m = re.fullmatch('\x1b\\[([0-9;]*)m', s)
    return bool(m) and [int(x or 0) for x in m.group(1).split(';')] == list(params)


STYLES = dict(WARNING=('33', '', ()), WARNING_LABEL=('33', '', ('bold',)), WARNING_ACCENT=('93', '', ()), ERROR=('31', '', ()), ERROR_LABEL=('31', '', ('bold',)),
              ERROR_ACCENT=('91', '', ()), CRITICAL=('97', '101', ()), CRITICAL_LABEL=('97', '101', ('bold',)), CRITICAL_ACCENT=('97', '101', ('blink', 'bold')))


def check_presets(v, first, w):
    """Shared presets: as they were at the start, and what their names say."""
    if first is not None:
        bad = [n for n in set(first) | set(v) if first.get(n) != v.get(n)]
        need(not bad, 'preset-changed', f'{w}: shared presets are not what they were: ' + ', '.join(f'{n} {first.get(n)} -> {v.get(n)}' for n in sorted(bad)[:4]))
    for n, x in v.items():
        reg, _, name = n.partition('.')
        if reg == 'Seqs' and name in INT:
            need(x == [INT[name]], 'preset', f'{w}: {n} is {x}')
        elif reg == 'Spans' and name in INT:
            need(x[0] == [INT[name]], 'preset', f'{w}: {n} opens with {x[0]}')
            check_closing(x[0], x[1], f'{w}: {n}')
        elif reg == 'Styles' and name in STYLES:
            fg, bg, at = STYLES[name]
            need((str(x[0][1][0]) if x[0] else '') == fg and (str(x[1][2][0]) if x[1] else '') == bg and tuple(x[2]) == at, 'preset', f'{w}: {n} is {x}')
    need(v['NOOP_SEQ'] == [] and v['NOOP_SPAN'] == [[], []] and v['NOOP_STYLE'] == [None, None, [], None], 'preset', f'{w}: a no-op preset is not one')


def lookup(r):
    reg = r.choice(['IntCodes', 'Seqs', 'Spans', 'Colors', 'Colors', 'Styles'])
    if r.random() < .08: return ['rg', reg, 'NO_SUCH_NAME']
    if reg == 'Colors' and r.random() < .2:
        n = r.choice(['TRUE_BLACK', 'TRUE_WHITE'] + ['RGB_GREY_%d' % k for k in (*range(1, 11), *range(15, 91, 5), *range(91, 100))])
        return ['rg', reg, r.choice([n, n.lower(), n.title()])]
    n = r.choice(list(STYLES) if reg == 'Styles' else [BASE8[k] for k in range(8)] + ['HI_' + n for n in BASE8[1:]] if reg == 'Colors' or r.random() < .6 else ON)
    return ['rg', reg, r.choice([n, n.lower(), n.title()])]


def check_lookup(reg, name, got, w):
    n = name.upper()
    if n == 'NO_SUCH_NAME':
        need(got[0] == 'exc' and got[1] == 'KeyError', 'bad-name', f'{w}: {got}')
        return
    need(got[0] == 'ok', 'exception', f'{w}: {got[1:]}')
    v = got[1]
    if reg == 'IntCodes': need(v == INT[n], 'looked-up', f'{w}: {v}')
    elif reg == 'Seqs': need(v == [INT[n]], 'looked-up', f'{w}: {v}')
    elif reg == 'Spans':
        need(isinstance(v, list) and v[0] == [INT[n]], 'looked-up', f'{w}: {v}')
        check_closing(v[0], v[1], w)
    elif reg == 'Colors' and n.startswith(('RGB_', 'TRUE_')):
        h = v[0]
        need(v == info(['rgb', h]) and len(set(channels(h))) == 1, 'looked-up', f'{w}: {v}')
        p = dict(TRUE_BLACK=0, TRUE_WHITE=100).get(n)
        p = int(n[9:]) if p is None else p
        need(abs(h % 256 - p * 2.55) < 2, 'looked-up', f'{w}: {h:06x} is not {p}% grey')
    elif reg == 'Colors': need(v == info(['code', INT[n]]), 'looked-up', f'{w}: {v}')
    elif reg == 'Styles':
        fg, bg, at = STYLES[n]
        want = [info(['code', int(fg)]) if fg else None, info(['code', int(bg) - 10]) if bg else None, sorted(at), None]
        need(v == want, 'looked-up', f'{w}: {v} instead of {want}')


# ------------------------------------------------------------------------ C23

class C23(Check):
    id = 'C23'
    quick, thorough = 6000, 240000
    rule = ('histories in which sequences and spans are made from codes, names, presets and one another, added, added in place, summed, compared, hashed and '
            'wrapped around texts, under several names, by one client and by groups of threads switched at arbitrary source lines, with interrupts and '
            'allocation failures inside of operations and rejected arguments in between; non-trivial = an operand was read again after it had been combined, '
            'or clients were switched, or an exception was injected')
    components = LIBCOMP
    assumptions = ['Clients do not modify the list returned by params.', 'A name is rebound by one thread at a time.']

    def arg(self, r, names):
        x = r.random()
        if x < .35: return r.choice(self.pool or (list(INT.values()) if r.random() < .3 else [INT[n] for n in ON]))
        if x < .6:
            n = r.choice(self.poolnames or ON)
            return r.choice([n, n.lower(), n.title()])
        if x < .9 and names: return ['sq', r.choice(names)]
        return r.choice([200, 10, 51, 73, 3])

    def make(self, r, k, names):
        """Operation which makes the sequence k."""
        x = r.random()
        if names and r.random() < self.vary:        # an existing one with a parameter repeated, moved, dropped or replaced
            p = list(self.known.get(r.choice(names), ()))
            if p:
                y, j = r.random(), r.randrange(len(p))
                if y < .5: p.insert(r.randrange(len(p) + 1), p[j])
                elif y < .7: r.shuffle(p)
                elif y < .85: del p[j]
                else: p[j] = r.choice(self.pool or list(INT.values()))
                return ['sq_new', k, p]
        if x < .35 or not names: return ['sq_new', k, [self.arg(r, names) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]]
        if x < .5: return ['sq_pre', k, r.choice([None] + list(INT))]
        if x < .65:         # often with values which are codes as well
            idx = lambda: r.choice(self.pool or list(INT.values())) if r.random() < .5 else r.randrange(256)
            return ['sq_ext', k, [idx()] if r.random() < .6 else [idx() for _ in range(3)], r.random() < .5]
        if x < .75: return ['sq_sum', [r.choice(names) for _ in range(r.randint(0, 4))], k]
        return ['sq_add', r.choice(names), r.choice(names), k]

    def made(self, o):
        """Parameters which are expected (used only to choose similar ones)."""
        kn = self.known
        n = o[0]
        if n == 'sq_new':
            v = []
            for a in o[2]: v += kn.get(a[1], []) if isinstance(a, list) else [INT[a.upper()] if isinstance(a, str) else a]
            kn[o[1]] = v
        elif n == 'sq_pre': kn[o[1]] = [] if o[2] is None else [INT[o[2]]]
        elif n == 'sq_ext': kn[o[1]] = [48 if o[3] else 38, 5 if len(o[2]) == 1 else 2, *o[2]]
        elif n == 'sq_add': kn[o[3]] = kn.get(o[1], []) + kn.get(o[2], [])
        elif n == 'sq_sum': kn[o[2]] = [p for m in o[1] for p in kn.get(m, [])]
        elif n == 'sq_iadd': kn[o[1]] = kn.get(o[1], []) + kn.get(o[2], [])
        elif n == 'sq_dup': kn[o[2]] = kn.get(o[1], [])
        return o

    def read(self, r, names, spans):
        x = r.random()
        if spans and x < .4: return ['sp_wrap', r.choice(spans), r.choice([None, '', 'text', 'a\nb', 12]), r.choice(['call', 'wrap', 'parts'])]
        if spans and x < .5: return ['sp_get', r.choice(spans)]
        if spans and x < .55: return ['sp_eq', r.choice(spans), r.choice(spans)]
        if x < .58: return ['ne_eq', 'sq', r.choice(names), r.choice(['31', 31, None, 'span', [31]])]
        if spans and x < .6: return ['ne_eq', 'sp', r.choice(spans), r.choice(['31', 31, None, 'seq', [31]])]
        if x < .72: return ['sq_eq', r.choice(names), r.choice(names)]
        if x < .74: return lookup(r)
        if x < .8: return ['sq_bad', r.choice(['type', 'name', 'add', 'iadd', 'idx', 'rgb']), r.choice(names)]
        return ['sq_get', r.choice(names)]

    def span(self, r, k, names):
        x = r.random()
        if names and x < self.vary: return ['sp_new', k, [['sq', r.choice(names)]]]
        if x < .5: return ['sp_new', k, [self.arg(r, names) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]]
        if x < .75: return ['sp_exp', k, r.choice(names + [None]), r.choice(names + [None]), r.random() < .2]
        return ['sp_pre', k, r.choice([None] + ON)]

    def gen(self, r, i, tier):
        steps = [['op', ['presets'], None]]
        names, spans = [], []
        self.pool = self.poolnames = None
        self.known, self.vary = {}, r.choice([0, .1, .5])
        if r.random() < .5:     # sequences which are similar to each other
            self.poolnames = [r.choice(ON) for _ in range(r.choice([1, 2, 3]))]
            self.pool = [INT[n] for n in self.poolnames]
        for _ in range(r.choice([1, 2, 4])):
            k = len(names)
            steps.append(['op', self.made(self.make(r, k, names)), None])
            names.append(k)
        for _ in range(history(r, [4, 8, 16, 30])):
            x = r.random()
            inj = some_inject(r, .15, 40)
            if x < .2:
                k = r.choice(names) if r.random() < .3 else len(names)
                steps.append(['op', self.made(self.make(r, k, names)), None if k in names else inj])
                if k not in names:
                    names.append(k)
                    if inj: steps.append(['op', self.make(r, k, names[:-1]), None])
            elif x < .3: steps.append(['op', self.made(['sq_iadd', r.choice(names), r.choice(names)]), inj])
            elif x < .35:
                steps.append(['op', self.made(['sq_dup', r.choice(names), len(names)]), None])
                names.append(len(names))
            elif x < .5:
                k = len(spans)
                if inj: steps.append(['op', self.span(r, k, names), inj])
                steps.append(['op', self.span(r, k, names), None])
                spans.append(k)
            elif x < .55 and spans:
                steps.append(['op', ['sp_get', (sp := r.choice(spans))], None])
                steps.append(['op', ['sp_seq', sp, r.choice(['opening', 'closing']), len(names)], None])
                names.append(len(names))
            elif x < .68:
                n = r.choice([2, 3])
                par = []
                for c in range(n):
                    ops, mine, mysp = [], [], []
                    for _ in range(r.choice([1, 2, 4])):
                        y = r.random()
                        if y < .25:
                            k = 1000 * (c + 1) + len(mine)
                            ops.append(self.made(self.make(r, k, names + mine)))
                            mine.append(k)
                        elif y < .4 and mine: ops.append(['sq_iadd', r.choice(mine), r.choice(names + mine)])
                        elif y < .6:
                            k = 1000 * (c + 1) + len(mysp)
                            ops.append(self.span(r, k, names + mine))
                            mysp.append(k)
                        else: ops.append(self.read(r, names + mine, spans + mysp))
                    par.append(ops)
                steps.append(['par', par, some_turns(r, n)])
            else: steps.append(['op', self.read(r, names, spans), inj])
        for k in names: steps.append(['op', ['sq_get', k], None])
        for k in spans: steps.append(['op', ['sp_wrap', k, 'x', 'wrap'], None])
        steps.append(['op', ['presets'], None])
        return dict(steps=steps)

    def evaluate(self, sc, cx):
        res = note_lib(cx, lib.run_lib(sc))
        seqs, spans, closings, used, reads = {}, {}, {}, set(), 0
        first = None

        def params(args):
            r = []
            for a in args:
                if isinstance(a, list): r += seqs[a[1]]
                else: r.append(INT[a.upper()] if isinstance(a, str) else a)
            return r

        def use(*names):
            used.update(n for n in names if n is not None)
        for k, ci, o, got, inj in step_results(sc, res):
            w = f'step {k}' + (f', client {ci}' if ci is not None else '') + f', {o}'
            name = o[0]
            if inj and got[0] == 'exc' and got[1] in ('KeyboardInterrupt', 'MemoryError'):
                cx.hit('operation cut')
                continue
            if name == 'sq_bad':
                need(got[0] == 'exc' and got[1] in dict(type=['TypeError'], name=['KeyError'], add=['TypeError'], iadd=['TypeError']).get(o[1], ['ValueError']),
                     'bad-argument', f'{w}: {got}')
                continue
            if name == 'rg':
                check_lookup(*o[1:], got, w)
                continue
            need(got[0] == 'ok', 'exception', f'{w}: {got[1:]}')
            v = got[1]
            if name == 'sq_new':
                seqs[o[1]] = params(o[2])
                use(*(a[1] for a in o[2] if isinstance(a, list)))
            elif name == 'sq_pre': seqs[o[1]] = [] if o[2] is None else [INT[o[2]]]
            elif name == 'sq_ext': seqs[o[1]] = [48 if o[3] else 38, 5 if len(o[2]) == 1 else 2, *o[2]]
            elif name == 'sq_add':
                seqs[o[3]] = seqs[o[1]] + seqs[o[2]]
                use(o[1], o[2])
            elif name == 'sq_sum':
                seqs[o[2]] = [p for n in o[1] for p in seqs[n]]
                use(*o[1])
            elif name == 'sq_iadd':
                seqs[o[1]] = seqs[o[1]] + seqs[o[2]]
                use(o[1], o[2])
            elif name == 'sq_dup': seqs[o[2]] = seqs[o[1]]
            elif name == 'sq_get':
                p = seqs[o[1]]
                if o[1] in used: reads += 1
                need(v[1] == p, 'params', f'{w}: {v[1]} instead of {p}')
                need(same_seq(v[0], p) and v[2] == v[0], 'assembled', f'{w}: {v[0]!r}, {v[2]!r} instead of {assembled(p)!r}')
            elif name == 'sq_eq':
                e = seqs[o[1]] == seqs[o[2]]
                need(v[0] is e, 'equality', f'{w}: {v[0]} for {seqs[o[1]]} and {seqs[o[2]]}')
                need(not e or v[1], 'hash', f'{w}: equal sequences {seqs[o[1]]} have different hashes')
                need(v[2] == (1 if e else 2), 'equality', f'{w}: {v[2]} keys for {seqs[o[1]]} and {seqs[o[2]]}')
            elif name == 'sp_new':
                spans[o[1]] = (params(o[2]), None)
                use(*(a[1] for a in o[2] if isinstance(a, list)))
            elif name == 'sp_exp':
                spans[o[1]] = ([] if o[2] is None else seqs[o[2]], [0] if o[4] else [] if o[3] is None else seqs[o[3]])
                use(o[2], o[3])
                cx.hit('explicit span')
            elif name == 'sp_pre': spans[o[1]] = ([], []) if o[2] is None else ([INT[o[2]]], None)
            elif name in ('sp_wrap', 'sp_get'):
                op, cl = spans[o[1]]
                if name == 'sp_wrap':
                    t = '' if o[2] is None else str(o[2])
                    head = '(\x1b\\[[0-9;]*m)' if op else '()'
                    m = re.fullmatch(head + re.escape(t) + '((?:\x1b\\[[0-9;]*m)?)', v)
                    need(m and same_seq(m.group(1), op), 'wrapped', f'{w}: {v!r}, the opening is {assembled(op)!r}')
                    s = m.group(2)
                    gotcl = [int(x or 0) for x in s[2:-1].split(';')] if s else []
                else:
                    need(v[0] == op, 'opening', f'{w}: {v[0]} instead of {op}')
                    gotcl = v[1]
                if cl is not None: need(gotcl == cl, 'closing', f'{w}: closed by {gotcl} instead of {cl}')
                else:
                    check_closing(op, gotcl, w)
                    need(closings.setdefault(tuple(op), gotcl) == gotcl, 'changed', f'{w}: closed by {gotcl}, before by {closings[tuple(op)]}')
                    spans[o[1]] = (op, gotcl)
                cx.hit('wrapped')
            elif name == 'ne_eq': need(v == [False, True], 'equality', f'{w}: {v} in comparison with something else')
            elif name == 'sp_eq':
                (a, b), (c, d) = spans[o[1]], spans[o[2]]
                if o[1] == o[2]: need(v[0] is True, 'equality', f'{w}: {v[0]}')
                elif a != c: need(v[0] is False, 'equality', f'{w}: {v[0]} for the openings {a} and {c}')
                elif b is not None and d is not None: need(v[0] is (b == d), 'equality', f'{w}: {v[0]} for {a}, {b} and {c}, {d}')
            elif name == 'sp_seq':
                op, cl = spans[o[1]]
                if o[2] == 'opening' or cl is not None:
                    seqs[o[3]] = op if o[2] == 'opening' else cl
                else: seqs[o[3]] = closings.get(tuple(op)) or self.learn(res, sc, k, o, closings, op)
                use(o[3])
            elif name == 'presets':
                check_presets(v, first, w)
                first = first or v
        cx.nontrivial = reads > 1 or res['switches'] > 0 or bool(res['fires'])
        if res['switches']: cx.hit('threads interleaved')

    def learn(self, res, sc, k, o, closings, op):
        """Closing sequence not seen yet: canonical form of the codes which are turned off."""
        off = {'fg': 39, 'bg': 49, **{a: c for c, t in ATTR_OFF.items() for a in t}}
        inv, p, i, r = ATTR_ON, list(op), 0, []
        while i < len(p):
            c = p[i]
            i += 1
            if c in (38, 48):
                r.append(39 if c == 38 else 49)
                i += 2 if p[i:i + 1] == [5] else 4 if p[i:i + 1] == [2] else 0
            elif c in inv: r.append(off[inv[c]])
            elif 30 <= c <= 37 or 90 <= c <= 97: r.append(39)
            elif 40 <= c <= 47 or 100 <= c <= 107: r.append(49)
        return r


# ------------------------------------------------------------------------ C26

TMUX = dict(blink='blink', bold='bold', crosslined='strikethrough', dim='dim', double_underlined='double-underscore', inversed='reverse', italic='italics',
            overlined='overline', underlined='underscore')
TMUX_TAG = re.compile('#\\[([^\\]]*)\\]')
CSS = dict(blink=('border', {'1px', 'dotted'}), bold=('font-weight', {'700'}), crosslined=('text-decoration', {'line-through'}),
           dim=('filter', {'saturate(0.5)', 'brightness(0.75)'}), double_underlined=('text-decoration', {'underline', 'double'}),
           italic=('font-style', {'italic'}), overlined=('text-decoration', {'overline'}), underlined=('text-decoration', {'underline'}))
PLAINTMUX = ('default', 'default', frozenset())


def tmux_colors(col, cfg):
    r = set()
    for c in allowed_codes(col, cfg, False):
        if c == '': r.add('default')
        elif c.startswith('5:'): r.add('color' + c[2:])
        elif c.startswith('2:'): r.add('#%02x%02x%02x' % tuple(map(int, c[2:].split(':'))))
        else: r.add(('bright' if int(c) >= 90 else '') + BASE8[int(c) % 10].lower())
    return r


def check_tmux(s, runs, cfg, w):
    text = ''.join(t for t, _ in runs)
    need(TMUX_TAG.sub('', s) == text, 'text-changed', f'{w}: {short(s)} for the text {short(text)}')
    if not (cfg['force'] is True or (cfg['force'] is False and cfg['tty'])):
        need(s == text, 'not-allowed', f'{w}: {short(s)} although styles are off')
        return
    st, fresh, out, pos = PLAINTMUX, PLAINTMUX, [], 0
    for m in list(TMUX_TAG.finditer(s)) + [None]:
        for ch in s[pos:m.start() if m else len(s)]:
            out.append((ch, st, fresh))
            if ch == '\n': fresh = PLAINTMUX
        if m:
            st, fresh = tmux(st, m.group(1), w), tmux(fresh, m.group(1), w)
            pos = m.end()
    need(st == PLAINTMUX, 'not-closed', f'{w}: {st} is left open: {short(s)}')
    i = 0
    for t, e in runs:
        e = e or dict(fg=None, bg=None, a=[])
        fg, bg, at = tmux_colors(e['fg'], cfg), tmux_colors(e['bg'], cfg), frozenset(TMUX[a] for a in e['a'])
        for ch in t:
            c, cur, fr = out[i]
            i += 1
            if ch in '\n\r': continue
            need(cur[0] in fg and cur[1] in bg and cur[2] == at, 'tmux-style', f'{w}: {ch!r} has {cur[0]}, {cur[1]}, {sorted(cur[2])} instead of '
                 f'{sorted(fg)}, {sorted(bg)}, {sorted(at)}: {short(s)}')
            need(cur == fr, 'line-leak', f'{w}: {ch!r} gets its style from the previous line: {short(s)}')


def tmux(st, tag, w):
    """Effect of a style as parsed by tmux (style_parse)."""
    fg, bg, at = st
    for x in re.split('[ ,]+', tag.strip()):
        if x == 'default': fg, bg, at = PLAINTMUX
        elif x.startswith('fg='): fg = x[3:].lower()
        elif x.startswith('bg='): bg = x[3:].lower()
        elif x in TMUX.values() or x == 'hidden': at = at | {x}
        elif x[:2] == 'no' and (x[2:] in TMUX.values() or x[2:] == 'hidden'): at = at - {x[2:]}
        else: raise Violation('tmux-unknown', f'{w}: tmux has no style {x!r}')
    return fg, bg, at


def check_html(s, runs, w, bare):
    """runs rendered in order; a run without a style is plain text."""
    pos = 0
    for t, e in runs:
        if e is None:
            need(s[pos:pos + len(t)] == t, 'html-text', f'{w}: {short(s)}')
            pos += len(t)
            continue
        m = re.compile('<span([^>]*)>').match(s, pos)
        need(m and s[m.end():].startswith(t + '</span>'), 'html-text', f'{w}: {short(s)} for {short(t)}')
        pos = m.end() + len(t) + 7
        at = dict(re.findall('([a-z]+)="([^"]*)"', m.group(1)))
        need(set(at) <= {'class', 'style'} and at.get('class') == e.get('cls'), 'html-class', f'{w}: {at} for class {e.get("cls")!r}')
        css = {}
        for d in filter(None, (x.strip() for x in at.get('style', '').split(';'))):
            n, _, v = d.partition(':')
            need(n not in css, 'html-style', f'{w}: {n} twice in {at}')
            css[n.strip()] = set(v.split())
        want = {}
        for a in e['a']:
            if a in CSS: want.setdefault(CSS[a][0], set()).update(CSS[a][1])
        names = ('color', 'background-color')
        for n, c in zip(names if 'inversed' not in e['a'] else names[::-1], (e['fg'], e['bg'])):
            if c is not None: want[n] = {'#%06x' % hexof(c)}
        need(css == want, 'html-style', f'{w}: {at.get("style")!r} instead of {want}')
    need(pos == len(s), 'html-text', f'{w}: {short(s[pos:])} after the end')


def hexof(c):
    return PAL16[c[1]] if c[0] == 'code' and c[1] in PAL16 else PAL256[c[1]] if c[0] in ('code', 'c256') else c[1]


def info(c):
    if c is None: return None
    h = hexof(c)
    if c[0] == 'code' and c[1] in PAL16: return [h, [c[1]], [c[1] + 10]]
    if c[0] in ('code', 'c256'): return [h, [38, 5, c[1]], [48, 5, c[1]]]
    return [h, [38, 2, *channels(h)], [48, 2, *channels(h)]]


class C26(Check):
    id = 'C26'
    quick, thorough = 6000, 240000
    rule = ('histories in which styles are made from colours of all kinds, presets and one another, changed through their setters, flipped, completed, and used in '
            'renderings by every renderer under changing preferences, by one client and by groups of threads switched at arbitrary source lines, with interrupts and '
            'allocation failures inside of operations and rejected colours in between; non-trivial = a style was rendered after itself or a relative had changed, '
            'or clients were switched, or an exception was injected')
    components = LIBCOMP
    assumptions = ['A style is changed by one thread at a time, and not while another thread uses it.']
    HOW = ['sgr', 'sgr', 'debug', 'html', 'html', 'tmux', 'tmux', 'noop']

    def color(self, r):
        c = some_color(r)
        if r.random() < .2: return ['c256', r.choice(list(PAL256))]
        if r.random() < .2:
            n = r.choice(BASE8)
            return ['name', r.choice([n, n.lower(), 'hi_' + n.lower() if n != 'BLACK' else 'grey', n.title()])]
        return c

    def attrs(self, r):
        return {a: r.random() < .75 for a in lib.ATTRS if r.random() < .22}

    def new(self, r, k, names):
        return ['st_new', k, r.choice(names) if names and r.random() < .5 else None, self.color(r), self.color(r), self.attrs(r),
                r.choice(['warn', 'a b', 'x-1']) if r.random() < .2 else None]

    def render(self, r, names):
        return ['st_r', r.choice(names), r.choice(self.HOW), some_text(r)]

    def gen(self, r, i, tier):
        steps = [['op', ['presets'], None], ['op', ['cfg', r.choice([True, True, True, None, False]), r.random() < .2, r.random() < .2], None]]
        names = []
        for _ in range(r.choice([1, 2, 3])):
            k = len(names)
            steps.append(['op', self.new(r, k, names), None])
            names.append(k)
        for _ in range(history(r, [4, 8, 16, 30])):
            x = r.random()
            inj = some_inject(r, .15, 60)
            k = r.choice(names)
            if x < .15:
                k = len(names)
                if inj: steps.append(['op', self.new(r, k, names), inj])
                steps.append(['op', self.new(r, k, names), None])
                names.append(k)
            elif x < .18:       # only read from then on: presets are shared
                k = len(names)
                steps.append(['op', ['st_pre', 500 + k, r.choice([None] + list(STYLES))], None])
                steps.append(['op', ['st_new', k, 500 + k, self.color(r), None, self.attrs(r), None], None])
                names.append(k)
            elif x < .21:
                steps.append(['op', ['st_dup', k, len(names)], None])
                names.append(len(names))
            elif x < .30: steps.append(['op', ['st_col', k, r.choice(['fg', 'bg']), self.color(r)], None])
            elif x < .36: steps.append(['op', ['st_attr', k, r.choice(lib.ATTRS), r.choice([True, False, None])], None])
            elif x < .41: steps.append(['op', ['st_flip', k], None])
            elif x < .46: steps.append(['op', ['st_auto', k], None])
            elif x < .49: steps.append(['op', ['st_bad', k, r.choice(['init', 'fg', 'bg'])], None])
            elif x < .54: steps.append(['op', ['cfg', r.choice([True, True, None, False]), r.random() < .3, r.random() < .3], None])
            elif x < .56: steps.append(['op', ['tty', 0, r.random() < .7], None])
            elif x < .62: steps.append(['op', ['st_text', k, r.choice(self.HOW), [some_text(r) for _ in range(r.choice([1, 2, 3, 4]))]], inj])
            elif x < .66: steps.append(['op', lookup(r), inj])
            elif x < .72: steps.append(['op', ['st_get', k], inj])
            elif x < .82:
                n = r.choice([2, 3])
                par = []
                for c in range(n):
                    ops, mine = [], []
                    for _ in range(r.choice([1, 2, 4])):
                        y = r.random()
                        if y < .2:
                            k = 1000 * (c + 1) + len(mine)
                            ops.append(self.new(r, k, names + mine))
                            mine.append(k)
                        elif y < .3 and mine: ops.append(r.choice([['st_flip', r.choice(mine)], ['st_auto', r.choice(mine)], ['st_col', r.choice(mine), 'fg', self.color(r)]]))
                        elif y < .36: ops.append(['st_get', r.choice(names + mine)])
                        elif y < .42: ops.append(lookup(r))
                        else: ops.append(self.render(r, names + mine))
                    par.append(ops)
                steps.append(['par', par, some_turns(r, n)])
            else: steps.append(['op', self.render(r, names), inj])
        for k in names:
            steps.append(['op', ['st_get', k], None])
            steps.append(['op', ['st_r', k, r.choice(self.HOW), 'x'], None])
        steps.append(['op', ['presets'], None])
        return dict(steps=steps)

    def evaluate(self, sc, cx):
        res = note_lib(cx, lib.run_lib(sc))
        cfg = dict(force=False, c256=False, c16=False, tty=False)
        objs = {}
        first, changed, relevant = None, False, 0

        def named(c):
            if c is None or c[0] != 'name': return c
            n = c[1].upper()
            return ['code', 90 if n == 'GREY' else INT[n]]
        for k, ci, o, got, inj in step_results(sc, res):
            w = f'step {k}' + (f', client {ci}' if ci is not None else '') + f', {o}, {cfg}'
            name = o[0]
            if inj and got[0] == 'exc' and got[1] in ('KeyboardInterrupt', 'MemoryError'):
                cx.hit('operation cut')
                continue
            if name == 'st_bad':
                need(got[0] == 'exc' and got[1] == 'KeyError', 'bad-colour', f'{w}: {got}')
                continue
            if name == 'rg':
                check_lookup(*o[1:], got, w)
                continue
            need(got[0] == 'ok', 'exception', f'{w}: {got[1:]}')
            v = got[1]
            if name == 'cfg': cfg.update(force=o[1], c256=o[2], c16=o[3])
            elif name == 'tty': cfg['tty'] = o[2]
            elif name == 'presets':
                check_presets(v, first, w)
                first = first or v
            elif name == 'st_new':
                st = dict(fg=named(o[3]), bg=named(o[4]), at={a: o[5].get(a) for a in lib.ATTRS}, cls=o[6])
                if o[2] is not None:
                    p = objs[o[2]]
                    st = dict(fg=st['fg'] or p['fg'], bg=st['bg'] or p['bg'], cls=p['cls'] if st['cls'] is None else st['cls'],
                              at={a: p['at'][a] if x is None else x for a, x in st['at'].items()})
                    cx.hit('inherited')
                objs[o[1]] = st
            elif name == 'st_pre':
                fg, bg, at = STYLES[o[2]] if o[2] else ('', '', ())
                objs[o[1]] = dict(fg=['code', int(fg)] if fg else None, bg=['code', int(bg) - 10] if bg else None, at={a: True if a in at else None for a in lib.ATTRS}, cls=None)
            elif name == 'st_dup': objs[o[2]] = objs[o[1]]
            elif name == 'st_col':
                objs[o[1]][o[2]] = named(o[3])
                changed = True
            elif name == 'st_attr':
                objs[o[1]]['at'][o[2]] = o[3]
                changed = True
            elif name == 'st_flip':
                st = objs[o[1]]
                st['fg'], st['bg'] = st['bg'], st['fg']
                changed = True
                need(v is True, 'flip', f'{w}: another object is returned')
            elif name == 'st_auto':
                st = objs[o[1]]
                if st['bg'] is not None:
                    st['fg'] = ['rgb', 0x0a0a0a if max(channels(hexof(st['bg']))) / 255 >= .45 else 0xcccccc]
                changed = True
                need(v is True, 'autopick', f'{w}: another object is returned')
            else:
                st = objs[o[1]]
                e = dict(fg=st['fg'], bg=st['bg'], a=sorted(a for a, x in st['at'].items() if x), cls=st['cls'])
                if changed: relevant += 1
                if name == 'st_get':
                    want = [info(e['fg']), info(e['bg']), e['a'], e['cls']]
                    need(v == want, 'style-changed', f'{w}: {v} instead of {want}')
                    continue
                runs = [(o[3], e)] if name == 'st_r' else [(t, e if i == 0 or i % 2 == 0 else None) for i, t in enumerate(o[3])]
                how = o[2]
                cx.hit(how)
                if how == 'noop': need(v == ''.join(t for t, _ in runs), 'noop', f'{w}: {short(v)}')
                elif how == 'sgr': check_render(v, runs, cfg, w)
                elif how == 'debug':
                    if not any('ǝ' in t for t, _ in runs): check_render(from_debug(v), runs, cfg, w, True)
                elif how == 'html': check_html(v, runs, w, False)
                elif how == 'tmux': check_tmux(v, runs, cfg, w)
        cx.nontrivial = relevant > 0 or res['switches'] > 0 or bool(res['fires'])
        if res['switches']: cx.hit('threads interleaved')
