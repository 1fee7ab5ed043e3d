"""C27: the legend, as printed, against the markers, as printed."""
import re

from . import gen, model
from .checks_io import Check, base_spec, data_of, mk, sched, small_f
from .common import *
from .term import Screen

SIGIL = ('2:255:255:255', '2:0:0:0', frozenset(['bold']))
LETTER = dict(S='space', C='control', P='printable', I='binary', U='utf8', E='esc')
HEX2 = re.compile(' [0-9a-f]{2}')


class Legend:
    """What the legend says about each sigil: class, styles in text mode, styles of the hexadecimal value."""

    def __init__(self, text):
        self.sig, self.prn, self.utf = {}, None, None
        cls, last = None, []
        for ln in Screen(text).lines:
            cells = list(zip(ln.chars, ln.styles))
            m = re.search('<([SCPIUE])>', ln.text)
            mine = [c for c, s in cells if s == SIGIL and c != ' ']
            if m: cls = LETTER[m.group(1)]
            if not mine and not m and not last: continue
            if mine:
                last = mine
                for c in mine: self.sig.setdefault(c, dict(cls=cls, text=[], hex=[]))
            elif not ln.text.strip(): last = []
            out = cells[:m.start() if m else 46]
            for i, (c, s) in enumerate(out):
                if s == SIGIL: continue
                if c in self.sig and c in last and s not in self.sig[c]['text']: self.sig[c]['text'].append(s)
            if '(*)' in ln.text and m and cls in ('printable', 'utf8'):
                st = list(dict.fromkeys(s for c, s in out if s[0] and s[:2] != ('2:102:102:102', '')))
                if cls == 'printable': self.prn = st
                else: self.utf = st
            if mine:
                for h in HEX2.finditer(ln.text[:m.start() if m else 46]):
                    s = cells[h.start() + 1][1]
                    for c in mine:
                        if s not in self.sig[c]['hex']: self.sig[c]['hex'].append(s)


def inv(s): return s[0], s[1], s[2] ^ {'inv'}


def focused(s): return 'inv' in s[2] or s[1] in ('46', '47')


def allowed(styles, focus):
    """Styles which the legend lists, or, if it shows only one of both variants, the other one as its inversion."""
    r = [s for s in styles if focused(s) == focus]
    return r + [inv(s) for s in styles if inv(s) not in styles and focused(inv(s)) == focus and s[1] not in ('46', '47')]


class C27(Check):
    id = 'C27'
    quick, thorough = 1200, 48000
    rule = ('sessions in which the legend and random inputs (modes, focus and ignore options, deliveries) are shown by one process in random order; every marker in the '
            'output is looked up in the legend printed in the same session; non-trivial = at least 4 different markers were looked up')

    def gen(self, r, i, tier):
        o = gen.options(r)
        o['m'] = r.choice([0, 0, 1, 2])
        inp = gen.small_input(r, 160, boost=r.sample(gen.KINDS, 5))
        o['f'] = small_f(r, gen.size_of(inp))
        sc = mk(o, inp, gen.source(r), sched(r, inp))
        sc['order'] = r.choice([['l', 'x'], ['x', 'l'], ['l', 'x', 'l'], ['x', 'l', 'x']])
        sc['flag'] = [*r.sample(['-d', '-m2', '-S', '-e', '--ignore-control', '--no-separators'], r.choice([0, 0, 1, 2])), r.choice(['-l', '--legend'])]
        return sc

    def evaluate(self, sc, cx):
        o = sc['o']
        sp = base_spec(sc)
        res = cx.history([sp if k == 'x' else dict(sp, argv=sc['flag'], input=[], plan=[]) for k in sc['order']])
        for k, a in zip(sc['order'], res):
            need(a['stop'] is None, 'no-termination', f'{k}: {a["stop"]}')
            ok(a)
        legends = [Legend(decode(a['out'])) for k, a in zip(sc['order'], res) if k == 'l']
        seen = set()
        for k, a in zip(sc['order'], res):
            if k == 'x':
                for lg in legends: seen |= self.compare(lg, o, a)
        for c in seen: cx.hit('marker ' + c)
        cx.nontrivial = len(seen) >= 4

    def compare(self, lg, o, a):
        need(lg.prn and lg.utf and len(lg.sig) >= 10, 'legend', 'the legend has no table of sigils')
        seen = set()
        plain = {s for s in lg.utf} | {inv(s) for s in lg.utf}
        ignored = model.style(*model.IGNORED)
        extra = {'⢸', '⡇', '･'}

        def marker(c, s, w):
            """One cell of the output."""
            if c == '×' and o['ignore'] and s == ignored: return
            if s in plain and (not gen.is_binary(o) or o['decode']): return     # character of the input
            if c in extra: return
            need(c in lg.sig, 'not-listed', f'{w}: marker {c!r} {sty(s)} is not in the legend')
            e = lg.sig[c]
            if c == 'ǝ' and o['color_markers']: return
            good = {x for f in (False, True) for x in allowed(e['text'], f)} if e['cls'] is None or c == '▯' else set(allowed(e['text'], e['cls'] in o['focus']))
            need(s in good, 'colour', f'{w}: marker {c!r} is {sty(s)}, in the legend {", ".join(map(sty, e["text"]))}')
            seen.add(c)
        scr = screen(a)
        if not gen.is_binary(o):
            for i, ln in enumerate(scr.lines):
                _, cells = text_content(ln, not o['no_line_numbers'])
                for c, s in cells:
                    if ord(c) > 0x7f: marker(c, s, f'line {i}')
                    elif s == lg.prn[0] or (s in lg.prn[1:]):
                        need((s == lg.prn[0]) != ('printable' in o['focus']), 'colour', f'line {i}: printable {c!r} is {sty(s)}')
            return seen
        for i, row in enumerate(parse_dump(scr.lines, o)):
            if row.total: continue
            for c, s, h in zip(row.chars, row.chst, row.hexst):
                if ord(c) <= 0x7f or c in '×': continue
                marker(c, s, f'row {i}')
                if c in lg.sig and c in seen and not (c == 'ǝ' and o['color_markers']):
                    e = lg.sig[c]
                    good = {x for f in (False, True) for x in allowed(e['hex'], f)}
                    need(not e['hex'] or h[0] in good and h[1] in good, 'colour', f'row {i}: value of {c!r} is {sty(h[0])}, in the legend {", ".join(map(sty, e["hex"]))}')
        return seen
