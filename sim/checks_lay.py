"""C29: layouts, colour values and conversions."""
import colorsys
import re

from . import lib
from .checks_io import Check
from .checks_lib import (CODES16, LIBCOMP, PAL16, PAL256, channels, dist, history, note_lib, some_hex, some_inject, some_turns, step_results)
from .common import *

VALUES = ['', 'a', 'abc', 'two words', ' x ', 'żółć', '█', '12:00', 'long value ' * 4, '\t', '%s', '\\1', '(a|b)*']


def some_color(r):
    x = r.random()
    if x < .4: return ['rgb', r.choice([0, 0xffffff, 0xff, 0xff00, 0xff0000, 1, 0x10000]) if r.random() < .3 else some_hex(r)]
    if x < .7: return ['c256', r.choice(list(PAL256))]
    return ['code', r.choice(CODES16)]


def codes(c, bg):
    kind, v = c
    if kind == 'code': return [v + 10 * bg]
    return [38 + 10 * bg, 5, v] if kind == 'c256' else [38 + 10 * bg, 2, *channels(v)]


def hexof(c):
    kind, v = c
    return PAL16[v] if kind == 'code' else PAL256[v] if kind == 'c256' else v


def check_layout(v, vals, n, w):
    """vals are spread over n characters, all gaps but by one character the same."""
    gaps = len(vals) - 1
    spaces = n - sum(map(len, vals))
    need(len(v) == n, 'layout-width', f'{w}: {v!r} has {len(v)} characters instead of {n}')
    lo = spaces // gaps if gaps else spaces
    gap = '( {%d,%d})' % (lo, lo + bool(gaps and spaces % gaps))
    pat = gap.join(map(re.escape, vals)) + ('' if gaps else gap)
    m = re.fullmatch(pat, v)
    need(m, 'layout', f'{w}: {v!r}')


class C29(Check):
    id = 'C29'
    quick, thorough = 6000, 240000
    rule = ('histories in which lists of values are laid out again and again with different widths and paddings, changed by their owner, and colours are converted, '
            'compared, encoded and approximated by clients which spoil the answers they are given, by one client and by groups of threads switched at arbitrary '
            'source lines, with exceptions inside of operations; non-trivial = an operation was repeated on the same argument, or clients were switched, or an '
            'exception was injected')
    components = LIBCOMP
    assumptions = ['A list of values is not changed by its owner while other threads use it.']

    def gen(self, r, i, tier):
        steps, ks = [], list(range(r.choice([1, 2, 3])))
        for k in ks: steps.append(['op', ['ls', k, self.values(r)], None])
        size = {st[1][1]: sum(map(len, st[1][2])) + len(st[1][2]) for st in steps}
        pool = [some_hex(r) for _ in range(3)]

        def use():
            x = r.random()
            if x < .45:
                k = r.choice(ks)
                return ['pad', k, max(0, size[k] + r.choice([-2, -1, 0, 1, 2, 3, r.randint(0, 20), r.randint(0, 90), 1000])), r.random() < .4, r.random() < .4, r.choice(['pos', 'kw', 'flags'])]
            h = r.choice(pool) if r.random() < .5 else some_hex(r)
            if x < .50: return ['lsget', r.choice(ks)]
            if x < .62: return ['conv', 'rgb', h]
            if x < .74: return ['conv', 'hsv', h]
            if x < .80: return ['conv', 'hex', list(channels(h))]
            if x < .84: return ['conv', r.choice(['rgb', 'hsv']), r.choice([None, 'ff0000', 1.5, [1]])]
            if x < .88: return ['apxcut', r.choice([16, 256]), h, r.choice([1, 2, 3, 16, 20, 100, 240, 1000]), r.choice(['reverse', 'last', 'pop', 'dup', 'clear'])]
            if x < .92: return ['colr', some_color(r), 'sgr']
            if x < .96: return ['colr', some_color(r), 'eq', some_color(r)]
            return ['colr', some_color(r), 'fmt', *r.choice([[], ['#'], [''], [None], ['fg=', 'none']])]
        for _ in range(history(r, [4, 8, 16, 30])):
            x = r.random()
            if x < .06: 
                k = r.choice(ks)
                v = r.choice(VALUES)
                size[k] += len(v) + 1
                steps.append(['op', ['lsadd', k, v], None])
            elif x < .2:
                n = r.choice([2, 3])
                steps.append(['par', [[use() for _ in range(r.choice([1, 2, 4]))] for _ in range(n)], some_turns(r, n)])
            else: steps.append(['op', use(), some_inject(r, .15, 30)])
        for k in ks: steps.append(['op', ['lsget', k], None])
        return dict(styles=[], steps=steps)

    def values(self, r):
        return [r.choice(VALUES) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6, 12]))]

    def evaluate(self, sc, cx):
        res = note_lib(cx, lib.run_lib(sc))
        lists, seen, again = {}, set(), False
        for k, ci, o, got, inj in step_results(sc, res):
            w = f'step {k}' + (f', client {ci}' if ci is not None else '') + f', {o}'
            name = o[0]
            if inj and got[0] == 'exc' and got[1] in ('KeyboardInterrupt', 'MemoryError'):
                cx.hit('operation cut')
                continue
            if dumps(o) in seen: again = True
            seen.add(dumps(o))
            if name == 'ls': lists[o[1]] = list(o[2])
            elif name == 'lsadd': lists[o[1]].append(o[2])
            elif name == 'lsget': need(got == ['ok', lists[o[1]]], 'values-changed', f'{w}: {got} instead of {lists[o[1]]}')
            elif name == 'pad':
                vals = [''] * o[3] + lists[o[1]] + [''] * o[4]
                w = f'step {k}' + (f', client {ci}' if ci is not None else '') + f', {vals} in {o[2]} characters'
                if sum(map(len, vals)) + len(vals) - 1 > o[2]:
                    need(got[0] == 'exc' and got[1] == 'ValueError', 'no-room', f'{w}: {got}')
                    cx.hit('does not fit')
                    continue
                need(got[0] == 'ok', 'exception', f'{w}: {got[1:]}')
                check_layout(got[1][0], vals, o[2], w)
                need(got[1][1] == lists[o[1]], 'values-changed', f'{w}: the list of the caller is {got[1][1]} now')
                cx.hit('laid out')
            elif name == 'conv':
                if o[1] == 'hex': need(got == ['ok', o[2][0] << 16 | o[2][1] << 8 | o[2][2]], 'conversion', f'{w}: {got}')
                elif not isinstance(o[2], int): need(got[0] == 'exc' and got[1] == 'TypeError', 'bad-colour', f'{w}: {got}')
                elif o[1] == 'rgb': need(got == ['ok', list(channels(o[2]))], 'conversion', f'{w}: {got}')
                else:
                    h, s, v = colorsys.rgb_to_hsv(*(x / 255 for x in channels(o[2])))
                    need(got[0] == 'ok', 'exception', f'{w}: {got}')
                    g = got[1]
                    need(0 <= g[0] < 360 and min(abs(g[0] - h * 360), 360 - abs(g[0] - h * 360)) < 1e-6 and abs(g[1] - s) < 1e-9 and abs(g[2] - v) < 1e-9, 'conversion',
                         f'{w}: {g} instead of {[h * 360, s, v]}')
            elif name == 'apxcut':
                pal = PAL16 if o[1] == 16 else PAL256
                need(got[0] == 'ok', 'exception', f'{w}: {got}')
                ds = [dist(x[0], o[2]) for x in got[1]]
                need(ds == sorted(dist(h, o[2]) for h in set(pal.values()))[:o[3]], 'approximate', f'{w}: distances {ds}')
                need(all(pal.get(x[1][-1]) == x[0] for x in got[1]), 'approximate', f'{w}: {got[1]}')
            elif name == 'colr':
                need(got[0] == 'ok', 'exception', f'{w}: {got}')
                c, v = o[1], got[1]
                if o[2] == 'sgr': need(v == [codes(c, False), codes(c, True), codes(c, False)], 'colour-codes', f'{w}: {v}')
                elif o[2] == 'eq':
                    same = c == o[3]
                    need(v == [same, same, True, False], 'colour-equality', f'{w}: {v}')
                else:
                    pre = o[3] if len(o) > 3 else '0x'
                    need(v == [f'{pre or ""}{hexof(c):06x}', hexof(c)], 'colour-text', f'{w}: {v}')
        cx.nontrivial = again or res['switches'] > 0 or bool(res['fires'])
        if res['switches']: cx.hit('threads interleaved')
