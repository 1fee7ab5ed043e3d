"""C28: formatters of time intervals and their registry."""
from . import lib
from .checks_io import Check
from .checks_lib import LIBCOMP, history, note_lib, some_inject, some_turns, step_results
from .common import *

# name, how many make the next unit, short name, shown together with the previous unit below this, overflow after this
PRESETS = {
    'p3': ([['s', 60, None, None, None], ['m', 60, None, None, None], ['h', 24, None, None, None], ['d', None, None, None, 99]], False, None, None, 'ERR', 3),
    'p4': ([['s', 60, None, None, None], ['m', 60, None, None, None], ['h', 24, None, None, None], ['d', 30, None, None, None], ['M', 12, None, None, None],
            ['y', None, None, None, 99]], False, ' ', None, 'ERRO', 4),
    'p6': ([['sec', 60, None, None, None], ['min', 60, None, None, None], ['hr', 24, None, 10, None], ['day', 30, None, 10, None], ['mon', 12, None, None, None],
            ['yr', None, None, None, 99]], False, ' ', None, 'OVERFLOW', 6),
    'p10': ([['sec', 60, None, None, None], ['min', 60, 'min', None, None], ['hour', 24, None, 24, None], ['day', 30, None, 10, None], ['month', 12, None, None, None],
             ['year', None, None, None, 999]], True, ' ', 's', 'OVERFLOW', 10)}
NAMES = [['s', 'sec', 'second'], ['m', 'min', 'minute'], ['h', 'hr', 'hour'], ['d', 'day'], ['M', 'mon', 'month'], ['y', 'yr', 'year']]
NEXT = [60, 60, 24, 30, 12]


def describe(f, seconds):
    """What the documentation promises, or None on overflow."""
    units, neg, sep, plural, msg, _ = f
    sep, plural = sep or '', plural or ''
    n = abs(seconds)
    minus = neg and seconds < 0
    if n < 1:
        if minus: return f'~0{sep}{units[0][0]}{plural}'
        return f'0{sep}{units[0][0]}{plural}' if n <= 1e-3 else f'<1{sep}{units[0][0]}'
    counts, x = [], int(n)
    for u in units:         # whole units of every kind
        counts.append(x)
        x = x // u[1] if u[1] else 0
    k = max(i for i, c in enumerate(counts) if c >= 1)
    u, c = units[k], counts[k]
    if u[4] and c > u[4] or k == 0 and u[4] and n > u[4]: return None
    sign = '-' if minus else ''
    if k and u[3] is not None and c < u[3]:
        p = units[k - 1]
        return f'{sign}{c}{u[2] or u[0][0]}{sep}{counts[k - 1] - c * p[1]}{p[2] or p[0][0]}'
    return f'{sign}{c}{sep}{u[0]}{plural if c != 1 else ""}'


class C28(Check):
    id = 'C28'
    quick, thorough = 6000, 240000
    rule = ('histories in which formatters of random units are made, registered, replaced and looked up, and intervals are formatted by them and through the registry, '
            'by one client and by groups of threads switched at arbitrary source lines, with interrupts and allocation failures inside of operations; '
            'non-trivial = something was formatted through the registry after it had changed, or clients were switched, or an exception was injected')
    components = LIBCOMP
    assumptions = ['Formatters are not registered while other threads use the registry.', 'Units are whole multiples of the previous ones and only the last one can overflow.']

    def formatter(self, r):
        n = r.choice([2, 3, 4, 5, 6])
        units = []
        for i in range(n):
            name = r.choice(NAMES[i])
            units.append([name, NEXT[i] if i < n - 1 else None, r.choice([None, None, NAMES[i][-1], name[0]]), r.choice([None, None, 10, NEXT[i]]) if 0 < i < n - 1 else None,
                          None if i < n - 1 else r.choice([9, 23, 99, 99, 999])])
        return [units, r.random() < .5, r.choice([None, ' ', ' ', '. ']), r.choice([None, None, 's']), r.choice(['ERR', 'OVERFLOW', '?'])]

    def seconds(self, r):
        x = r.random()
        u = r.choice([1, 60, 3600, 86400, 30 * 86400, 360 * 86400])
        v = r.choice([0, 0, .0005, .4, .999, 1, 1.5]) if x < .15 else r.randint(0, 100) * u + r.choice([0, 0, -1, 1, -.5, .5]) if x < .7 else \
            r.choice([9, 10, 23, 24, 29, 30, 59, 60, 99, 100, 999, 1000]) * u + r.choice([-1, 0, 1, -.01, 3599, 59 * 60 + 59, 86399]) if x < .9 else r.uniform(0, 10 ** r.randint(0, 12))
        return v if r.random() < .6 else -v

    def read(self, r, ks):
        x = r.random()
        if x < .45: return ['tf_any', self.seconds(r), r.choice([None, None, *range(2, 16), 1, 0, 100])]
        if x < .6: return ['tf_find', r.choice([*range(0, 18), 50])]
        if x < .65: return ['tf_exact', r.randint(0, 16)]
        if x < .7: return ['tf_ends']
        if x < .75: return ['tf_raw', r.choice(ks), self.seconds(r)]
        return ['tf_use', r.choice(ks), self.seconds(r), r.random() < .4]

    def gen(self, r, i, tier):
        steps = [['op', ['tf_presets'], None]]
        ks = list(PRESETS)
        for _ in range(history(r, [3, 6, 12, 25])):
            x = r.random()
            inj = some_inject(r, .15, 40)
            if x < .25:
                k = len(ks)
                f = self.formatter(r)
                if inj: steps.append(['op', ['tf_new', k, *f], inj])
                steps.append(['op', ['tf_new', k, *f], None])
                ks.append(k)
                if r.random() < .7: steps.append(['op', ['tf_reg', [k]], None])
            elif x < .4:
                reg = ['tf_reg', [r.choice(ks) for _ in range(r.choice([0, 1, 2, 3]))]]
                if inj: steps.append(['op', reg, inj])
                steps.append(['op', reg, None])
            elif x < .55:
                n = r.choice([2, 3])
                steps.append(['par', [[self.read(r, ks) for _ in range(r.choice([1, 2, 4]))] for _ in range(n)], some_turns(r, n)])
            else: steps.append(['op', self.read(r, ks), inj])
        return dict(steps=steps)

    def evaluate(self, sc, cx):
        res = note_lib(cx, lib.run_lib(sc))
        fs, reg = dict(PRESETS), {v[5]: k for k, v in PRESETS.items()}
        changed, relevant = False, 0
        for k, ci, o, got, inj in step_results(sc, res):
            w = f'step {k}' + (f', client {ci}' if ci is not None else '') + f', {o}'
            name = o[0]
            if inj and got[0] == 'exc' and got[1] in ('KeyboardInterrupt', 'MemoryError'):
                cx.hit('operation cut')
                continue
            if name == 'tf_any':
                fit = [n for n in reg if o[2] is None or n <= o[2]]
                if changed: relevant += 1
                if not fit:
                    need(got[0] == 'exc' and got[1] == 'ValueError', 'no-formatter', f'{w}: {got}')
                    cx.hit('no formatter fits')
                    continue
            need(got[0] == 'ok', 'exception', f'{w}: {got[1:]}')
            v = got[1]
            if name == 'tf_presets': need(v == sorted(reg), 'presets', f'{w}: {v}')
            elif name == 'tf_new': fs[o[1]] = (*o[2:], v)
            elif name == 'tf_reg':
                for x in o[1]: reg[fs[x][5]] = x
                changed = True
            elif name == 'tf_find':
                fit = [n for n in reg if n <= o[1]]
                self.same(v, reg[max(fit)] if fit else None, fs, w)
            elif name == 'tf_exact': self.same(v, reg.get(o[1]), fs, w)
            elif name == 'tf_ends':
                self.same(v[0], reg[min(reg)], fs, w)
                self.same(v[1], reg[max(reg)], fs, w)
            else:
                need(isinstance(v, str) or v is None and name == 'tf_raw', 'wrong-type', f'{w}: {v!r}')
                if name == 'tf_any':
                    f, s, pad = fs[reg[max(fit)]], o[1], False
                    need(o[2] is None or len(v) <= o[2], 'too-long', f'{w}: {v!r}')
                else:
                    f, s, pad = fs[o[1]], o[2], name == 'tf_use' and o[3]
                want = describe(f, s)
                if want is None:
                    cx.hit('overflow')
                    want = f[4][:f[5]] if name != 'tf_raw' else None
                if v is not None: need(len(v) <= f[5], 'too-long', f'{w}: {v!r} is longer than {f[5]}, the maximum length of {f[:5]}')
                if pad: want = want.rjust(f[5])
                need(v == want, 'denotes', f'{w}: {v!r} instead of {want!r} by {f}')
        cx.nontrivial = relevant > 0 or res['switches'] > 0 or bool(res['fires'])
        if res['switches']: cx.hit('threads interleaved')

    def same(self, got, want, fs, w): need(got == want, 'looked-up', f'{w}: {got} instead of {want}')
