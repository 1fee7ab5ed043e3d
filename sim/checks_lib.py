"""Properties of the library: C19..C22."""
import re

from . import lib
from .checks_io import Check
from .common import *
from .world import HarnessError
from .term import PLAIN, sgr

SEQ = re.compile('\x1b\\[([0-9;]*)m')
LIBCOMP = dict(real=['pytermor (all modules)', 'threading (clients run one at a time, switched line by line)'],
               stub=['output devices', 'clients of the library'])


def note_lib(cx, res):
    cx.note(res)
    if res['stop']:
        raise Violation('no-termination', res['stop'])
    return res


# ------------------------------------------------------------------------ C19

class C19(Check):
    id = 'C19'
    quick, thorough = 12000, 480000
    level = 'fault_enumeration'
    rule = ('initial terminal attributes x histories of waits with the attributes changed by others in between x keys typed before, during and after x '
            'error, hang-up or interrupt at each terminal call; non-trivial = a fault fired, or the attributes changed between the waits')
    components = dict(real=['pytermor.common.wait_key', 'io.TextIOWrapper/BufferedReader'], stub=['termios (line discipline with canonical mode, echo, input queue)', 'keyboard'])
    assumptions = ['A signal is delivered during a system call or right after it returns (that is where CPython runs signal handlers in this function).',
                   'The call which restores the attributes succeeds.']

    def attrs(self, r):
        lflag = 0
        for bit, p in ((0o1, .8), (0o2, .7), (0o10, .7), (0o20, .7), (0o40, .7), (0o100, .2), (0o200, .2), (0o400, .3), (0o1000, .7), (0o4000, .7), (0o100000, .8)):
            if r.random() < p: lflag |= bit
        cc = [bytes([r.choice([0, 1, 3, 4, 17, 19, 26, 28, 127])]).hex() for _ in range(32)]
        return [r.choice([0o66402, 0o2400, 0, 0o400]), r.choice([0o5, 0o1, 0]), r.choice([0o277, 0o60, 0o2277]), lflag, r.choice([15, 13]), r.choice([15, 13]), cc]

    def gen(self, r, i, tier):
        calls = []
        for k in range(r.choice([1, 1, 2, 2, 3, 4])):
            c = {}
            if k and r.random() < .6: c['attrs'] = self.attrs(r)
            key = r.choice(['q', 'y', '\n', 'й', '\x1b[A', '\x03', ' ', '€', 'abc', '\x04', 'n\n'])
            if r.random() < .25: c['ahead'] = r.choice(['q', 'rm -rf\n', 'й']).encode().hex()
            ev = []
            ev.append([r.choice([0.5, 3, 3600]), key.encode().hex()])
            for _ in range(r.choice([0, 0, 1, 2])):
                ev.append([0, r.choice(['x', 'yes\n', '\n', 'ёж']).encode().hex()])
            c['events'] = ev
            x = r.random()
            if x < .7:
                f = r.choice([['tcgetattr', 1, 'err'], ['tcgetattr', 1, 'notty'], ['tcgetattr', 2, 'err'], ['tcgetattr', 1, 'ki'], ['tcgetattr', 2, 'ki'],
                              ['tcsetattr', 1, 'err'], ['tcsetattr', 1, 'ki'], ['tcsetattr', 1, 'ki'], ['tcsetattr', 2, 'ki'], ['read', 1, 'ki'],
                              ['read', 1, 'ki'], ['read', 1, 'err'], ['read', 1, 'eof'], ['read', 1, 'kiafter'], ['fileno', 1, 'ki']])
                c['faults'] = [f]
            calls.append(c)
        return dict(attrs=self.attrs(r), calls=calls)

    def evaluate(self, sc, cx):
        def dec(a): return a[:6] + [[bytes.fromhex(x) for x in a[6]]]
        spec = dict(attrs=dec(sc['attrs']), calls=[dict(c, **({'attrs': dec(c['attrs'])} if c.get('attrs') else {})) for c in sc['calls']])
        res = lib.run_wait(spec)
        cx.note(res)
        cx.nontrivial = bool(res['fires']) or any(c.get('attrs') for c in sc['calls'])
        typed = ''
        need(not res['stop'], 'stuck', f'call {len(res["calls"]) + 1}: {res["stop"]}, although a key was typed')
        for k, (c, got) in enumerate(zip(sc['calls'], res['calls'])):
            w = f'call {k + 1} ({(c.get("faults") or ["no faults"])[0]})'
            if c.get('faults'): cx.hit(':'.join(map(str, c['faults'][0])))
            need(got['after'] == got['before'], 'not-restored', f'{w}: attributes {diff(got["before"], got["after"])} after the call')
            for m in got['modes'] + got['sets']:
                d = [x for x in range(7) if m[x] != got['before'][x] and x != 3]
                need(not d and not ((m[3] ^ got['before'][3]) & ~(lib.ICANON | lib.ECHO)), 'altered',
                     f'{w}: {diff(got["before"], m)} while waiting')
            if got['sets']:
                need(not got['queue'], 'leaked', f'{w}: input left in the queue: {bytes.fromhex(got["queue"])!r}')
            typed += bytes.fromhex(got['delivered']).decode('utf-8', 'replace')
            fault = (c.get('faults') or [[None, 0, None]])[0]
            fired = got['fired']
            if not fired:
                need(got['r'][0] == 'ok', 'spurious', f'{w}: {got["r"]} without any fault')
                v = got['r'][1]
                v = v.decode('utf-8', 'replace') if isinstance(v, bytes) else v
                need(isinstance(v, str) and v and v in typed.replace('\r', '\n') + typed, 'wrong-key', f'{w}: {v!r} is returned, typed {typed!r}')
            elif fault[2] == 'err' and fault[0] == 'read':
                need(got['r'] == ['ok', None], 'read-error', f'{w}: {got["r"]} after a read error')
            elif fault[2] == 'eof':
                need(got['r'] in (['ok', ''], ['ok', None]), 'eof', f'{w}: {got["r"]} at the end of input')


def diff(a, b):
    return ', '.join(f'[{i}] {x!r} -> {y!r}' for i, (x, y) in enumerate(zip(a, b)) if x != y)[:300]


# ------------------------------------------------------- palettes and styles

STD16 = [0x000000, 0x800000, 0x008000, 0x808000, 0x000080, 0x800080, 0x008080, 0xc0c0c0,
         0x808080, 0xff0000, 0x00ff00, 0xffff00, 0x0000ff, 0xff00ff, 0x00ffff, 0xffffff]
CODES16 = list(range(30, 38)) + list(range(90, 98))
PAL16 = dict(zip(CODES16, STD16))
LEVELS = [0, 0x5f, 0x87, 0xaf, 0xd7, 0xff]
PAL256 = {16 + 36 * a + 6 * b + c: LEVELS[a] << 16 | LEVELS[b] << 8 | LEVELS[c] for a in range(6) for b in range(6) for c in range(6)}
PAL256.update({232 + k: (8 + 10 * k) * 0x10101 for k in range(24)})


def channels(h): return h >> 16 & 255, h >> 8 & 255, h & 255


def dist(a, b): return sum((x - y) ** 2 for x, y in zip(channels(a), channels(b)))


def nearest(pal, h):
    """Codes of the palette colours nearest to h."""
    d = {c: dist(v, h) for c, v in pal.items()}
    m = min(d.values())
    return {c for c, x in d.items() if x == m}


def some_hex(r):
    x = r.random()
    if x < .2: return r.choice(STD16)
    if x < .35: return r.choice(list(PAL256.values()))
    if x < .5: return r.randrange(256) * 0x10101
    if x < .65:
        a = r.choice(STD16 + list(PAL256.values()))
        return int.from_bytes(bytes(max(0, min(255, v + r.randint(-3, 3))) for v in channels(a)), 'big')
    return r.randrange(1 << 24)


def some_color(r):
    x = r.random()
    if x < .3: return None
    if x < .6: return [r.choice(['rgb', 'int']), some_hex(r)]
    if x < .75: return ['code', r.choice(list(PAL256))]
    if x < .82: return ['c256', r.choice(list(PAL256))]
    return ['code', r.choice(CODES16)]


def some_style(r):
    return dict(fg=some_color(r), bg=some_color(r), a=sorted(a for a in lib.ATTRS if r.random() < .15))


def some_styles(r, n):
    """n styles; some differ only in their attributes."""
    res = []
    for _ in range(n):
        s = some_style(r)
        if res and r.random() < .25: s = dict(s, fg=res[0]['fg'], bg=res[0]['bg'])
        res.append(s)
    return res


def effective(st):
    """Style with the inherited properties resolved."""
    if not st: return dict(fg=None, bg=None, a=[])
    p = effective(st.get('inherit'))
    return dict(fg=st.get('fg') or p['fg'], bg=st.get('bg') or p['bg'], a=sorted(set(st.get('a', ())) | set(p['a'])))


NAMES = dict(blink='blink', bold='bold', crosslined='cross', dim='dim', double_underlined='dunder', inversed='inv', italic='italic',
             overlined='over', underlined='under')


def allowed_codes(col, cfg, bg):
    """Acceptable values of the colour in the terminal's notation."""
    if col is None: return {''}
    kind, v = col
    mode = 16 if cfg['c16'] else 256 if cfg['c256'] else 0
    add = 10 if bg else 0
    if kind == 'code' and v in PAL16: return {str(v + add)}
    h = PAL256[v] if kind in ('code', 'c256') else v
    if mode == 16: return {str(c + add) for c in nearest(PAL16, h)}
    if kind in ('code', 'c256'): return {f'5:{v}'}
    if mode == 256: return {f'5:{c}' for c in nearest(PAL256, h)}
    return {'2:%d:%d:%d' % channels(h)}


def cells(s, w):
    """[(char, style, style if the line had been started afresh)], final style"""
    out, st, fresh, pos = [], PLAIN, PLAIN, 0
    for m in SEQ.finditer(s):
        for ch in s[pos:m.start()]:
            out.append((ch, st, fresh))
            if ch == '\n': fresh = PLAIN
        p = [int(x or 0) for x in m.group(1).split(';')]
        st, fresh = sgr(st, p), sgr(fresh, p)
        pos = m.end()
    for ch in s[pos:]:
        out.append((ch, st, fresh))
        if ch == '\n': fresh = PLAIN
    need('\x1b' not in SEQ.sub('', s), 'bad-sequence', f'{w}: not an SGR sequence in {short(s)}')
    return out, st


def check_render(s, runs, cfg, w, always=False):
    """s is the rendering of runs [(text, effective style or None)] under cfg."""
    need(isinstance(s, str), 'type', f'{w}: {short(s)}')
    text = ''.join(t for t, _ in runs)
    need(SEQ.sub('', s) == text, 'text-changed', f'{w}: {short(s)} for the text {short(text)}')
    on = always or cfg['force'] is True or (cfg['force'] is False and cfg['tty'])
    if not on:
        need(s == text, 'not-allowed', f'{w}: sequences although styles are {"disabled" if cfg["force"] is None else "not forced and the output is not a terminal"}: {short(s)}')
        return
    got, final = cells(s, w)
    need(final == PLAIN, 'not-closed', f'{w}: attributes {final} are left open: {short(s)}')
    i = 0
    for t, st in runs:
        e = st or dict(fg=None, bg=None, a=[])
        fg, bg = allowed_codes(e['fg'], cfg, False), allowed_codes(e['bg'], cfg, True)
        at = frozenset(NAMES[a] for a in e['a'])
        for ch in t:
            c, cur, fresh = got[i]
            i += 1
            if ch in '\n\r': continue
            mode = max((int(x[0]) if ':' in x else 0) and {'5': 1, '2': 2}[x[0]] for x in cur[:2])
            top = 0 if cfg['c16'] else 1 if cfg['c256'] else 2
            need(mode <= top, 'colour-mode', f'{w}: colour {cur[:2]} although {"16" if cfg["c16"] else "256"} colours are allowed: {short(s)}')
            need(cur[0] in fg and cur[1] in bg, 'colour', f'{w}: {ch!r} has fg {cur[0]!r}, bg {cur[1]!r} instead of {sorted(fg)}, {sorted(bg)}: {short(s)}')
            need(cur[2] == at, 'attributes', f'{w}: {ch!r} has {sorted(cur[2])} instead of {sorted(at)}: {short(s)}')
            need(cur == fresh, 'line-leak', f'{w}: {ch!r} gets its style from the previous line: {short(s)}')


WORDS = ['a', 'text', 'Warning: AAAA', 'two words', '', 'x\ny', 'l1\nl2\nl3\n', '\n', '\n\n', 'tail \n lead', 'żółć', '漢字', 'a\tb', 'c\r\nd', '0', 'very long ' * 12,
         '[31m', '%s', '{}', '<b>&', '|ǝ1|', 'm;m']


def history(r, usual, rare=.02, long=(120, 350)):
    """Number of steps: mostly few, sometimes so many that caches overflow."""
    return r.choice(usual) if r.random() >= rare else r.choice(long)


def some_text(r):
    if r.random() < .008: return r.choice(['long line ' * 500, 'line\n' * 300, 'ab\n\n' * 70, 'é█' * 1000 + '\n'])
    return r.choice(WORDS) if r.random() < .7 else ''.join(r.choice(['ab', ' ', '\n', 'é', '█', '12', ';', '[', 'm']) for _ in range(r.randint(1, 12)))


def some_value(r):
    """Texts can be made of any object."""
    if r.random() < .92: return some_text(r)
    return ['v', r.choice([0, 0.0, False, True, 1, 12, -3.5, 1e22, [], [1, 'a'], {}, ''])]


def shown(x):
    return str(x[1]) if isinstance(x, list) else x


NAMED = {n: 30 + k for k, n in enumerate(['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white'])}
NAMED.update({'hi_' + n: c + 60 for n, c in NAMED.items() if n != 'black'})


def run_style(st, sty):
    """Style of a part of a text: None, number of a style or name of a colour."""
    return None if st is None else effective(dict(fg=['code', NAMED[st.lower()]])) if isinstance(st, str) else sty[st]


def some_run_style(r, ns):
    x = r.random()
    return None if x < .2 else r.choice([str.lower, str.upper, str.title])(r.choice(list(NAMED))) if x < .24 else r.randrange(ns)


def some_runs(r, ns):
    return [[some_value(r), st] if st is not None or k == 0 else [some_text(r), st]
            for k, st in ((k, some_run_style(r, ns)) for k in range(history(r, [1, 1, 1, 2, 2, 3, 5], .01, [40, 150])))]


def some_turns(r, n):
    m = r.choice(['fine', 'fine', 'mid', 'coarse', 'one'])
    if m == 'one':      # one long preemption
        return [[r.randrange(n), r.randint(1, 120)], [r.randrange(n), 100000]]
    hi = dict(fine=4, mid=20, coarse=90)[m]
    return [[r.randrange(n), r.randint(1, hi)] for _ in range(r.choice([10, 40, 120]))]


def some_inject(r, p, hi=120):
    return [r.randint(1, r.choice([5, 20, hi])), r.choice(['ki', 'mem'])] if r.random() < p else None


def from_debug(s):
    return re.sub('\\|ǝ([0-9;]*)\\|', '\x1b[\\1m', s)


def step_results(spec, res):
    """(step, client, op, result, injected) in a serial order."""
    for x in all_results(spec, res):
        if x[3][:2] == ['exc', 'Missing']: raise HarnessError(f'{x[2]} uses what has not been made')
        yield x


def all_results(spec, res):
    for k, (st, r) in enumerate(zip(spec['steps'], res['results'])):
        if st[0] == 'op':
            inj = r[-1] if isinstance(r[-1], list) and r[-1][:1] == ['injected'] else None
            yield k, None, st[1], r, inj
        else:
            for ci, (ops, rs) in enumerate(zip(st[1], r)):
                for o, x in zip(ops, rs):
                    yield k, ci, o, x, None


# ------------------------------------------------------------------------ C20

class C20(Check):
    id = 'C20'
    quick, thorough = 9000, 360000
    rule = ('histories of set-ups, changes of the output device and of its terminal status, default renderer changes and renderings through every public entry '
            'point by one client and by groups of threads switched at arbitrary source lines, with interrupts and allocation failures inside of operations; '
            'non-trivial = the configuration in force changed between renderings, or clients were switched, or an exception was injected')
    components = LIBCOMP
    assumptions = ['A set-up is not concurrent with a rendering of another thread (set-ups are single operations in the history).']
    HOW = ['class', 'style', 'styletext', 'text', 'str', 'fmt', 'print']

    def gen(self, r, i, tier):
        styles = some_styles(r, r.choice([2, 3, 5]))
        for s in styles[1:]:
            if r.random() < .25: s['inherit'] = styles[0]
        ns, ndev = len(styles), r.choice([1, 2, 3])
        steps, tids = [], []
        nt = r.choice([1, 2, 3])
        for t in range(nt):
            steps.append(['op', ['mk', t, some_runs(r, ns)], None])
            tids.append(t)
        if r.random() < .8: steps.append(['op', self.cfg(r), None])

        def rend():
            x = r.random()
            if x < .4: return ['r', r.choice(self.HOW[:6]), r.randrange(ns), some_value(r)]
            if x < .75: return ['rt', r.choice(tids), r.choice(['str', 'render', 'sgr', 'sgr'])]
            if x < .85: return ['q', r.choice([16, 256]), some_hex(r)]
            if x < .9: return ['allowed']
            return ['r', r.choice(['noop', 'debug', 'html', 'tmux']), r.randrange(ns), some_value(r)]
        for _ in range(history(r, [3, 6, 12, 20])):
            x = r.random()
            if x < .22: steps.append(['op', self.cfg(r), None])
            elif x < .30: steps.append(['op', ['tty', r.randrange(ndev), r.random() < .75], None])
            elif x < .36: steps.append(['op', ['redir', r.randrange(ndev)], None])
            elif x < .40: steps.append(['op', ['mgr', r.choice([None, 'sgr', 'noop', 'debug'])], None])
            elif x < .46: steps.append(['op', r.choice([['r', 'print', r.randrange(ns), some_value(r)], ['rt', r.choice(tids), 'print']]), None])
            elif x < .54:
                n = r.choice([2, 2, 3])
                steps.append(['par', [[rend() for _ in range(r.choice([1, 2, 4]))] for _ in range(n)], some_turns(r, n)])
            else: steps.append(['op', rend(), some_inject(r, .15)])
        return dict(styles=styles, ndev=ndev, steps=steps)

    def cfg(self, r):
        if r.random() < .1: return ['cfgdef']
        return ['cfg', r.choice([True, True, True, False, False, None]), r.random() < .45, r.random() < .3]

    def evaluate(self, sc, cx):
        res = note_lib(cx, lib.run_lib(sc))
        cfg = dict(force=False, c256=False, c16=False)
        ttys, dev, mgr = [False] * sc['ndev'], 0, 'sgr'
        texts = {}
        sty = [effective(s) for s in sc['styles']]
        seen = set()
        for k, ci, o, got, inj in step_results(sc, res):
            w = f'step {k}' + (f', client {ci}' if ci is not None else '') + f', {o[:3]}'
            name = o[0]
            if got[0] == 'exc':
                need(inj and got[1] in ('KeyboardInterrupt', 'MemoryError'), 'exception', f'{w}: {got[1:]}')
                cx.hit('operation cut by ' + got[1])
                continue
            v = got[1]
            if name == 'cfg': cfg.update(force=o[1], c256=o[2], c16=o[3])
            elif name == 'cfgdef': cfg.update(force=False, c256=False, c16=False)
            elif name == 'tty': ttys[o[1]] = o[2]
            elif name == 'redir': dev = o[1]
            elif name == 'mgr': mgr = o[1] or 'sgr'
            elif name == 'mk': texts[o[1]] = [(shown(s), run_style(st, sty)) for s, st in o[2]]
            elif name == 'allowed':
                need(v == (cfg['force'] is True or (cfg['force'] is False and ttys[dev])), 'allowed', f'{w}: {v} under {cfg}, terminal: {ttys[dev]}')
            elif name in ('r', 'rt'):
                runs = [(shown(o[3]), sty[o[2]])] if name == 'r' else texts[o[1]]
                how = o[1] if name == 'r' else o[2]
                rn = 'sgr' if how in ('class', 'sgr') else how if how in ('noop', 'debug', 'html', 'tmux') else mgr
                now = dict(cfg, tty=ttys[dev])
                seen.add((tuple(sorted((a, str(b)) for a, b in now.items())), rn))
                w = f'step {k}, {o}, renderer {rn}, {now}'
                if rn == 'sgr':
                    check_render(v, runs, now, w)
                    on = now['force'] is True or (now['force'] is False and now['tty'])
                    cx.hit('styles off' if not on else '16 colours' if now['c16'] else '256 colours' if now['c256'] else 'RGB')
                elif rn == 'noop':
                    need(v == ''.join(t for t, _ in runs), 'noop', f'{w}: {short(v)}')
                elif rn == 'debug' and not any('ǝ' in t for t, _ in runs):
                    check_render(from_debug(v), runs, now, w, True)
        cx.nontrivial = len(seen) > 1 or res['switches'] > 0 or bool(res['fires'])
        if res['switches']: cx.hit('threads interleaved')


# ------------------------------------------------------------------------ C21

class C21(Check):
    id = 'C21'
    quick, thorough = 5000, 200000
    rule = ('histories of nearest-colour queries to both palettes, registrations of new palette colours and renderings in reduced colour modes, by one client and '
            'by groups of threads switched at arbitrary source lines, with interrupts inside of operations; every history is repeated with its queries in '
            'another order; non-trivial = a query was repeated, or asked again after a registration, or clients were switched, or an exception was injected')
    components = LIBCOMP
    assumptions = ['A registration is not concurrent with a query of another thread.']

    def gen(self, r, i, tier):
        steps = []
        free256, free16 = list(range(16)), [20, 26, 50, 51, 52, 54, 58, 59]
        big = r.random() < .02     # hundreds of distinct colours are asked for
        only = r.choice([None, None, 16, 256, 256]) if big else None
        pool = [some_hex(r) for _ in range(r.choice([100, 300, 600]) if big else history(r, [2, 4, 8], .03, [60, 300]))]
        new = []
        rare = 16 if big and r.random() < .7 else 1

        def q():
            x = r.random()
            pal = only or r.choice([16, 256])
            if new and x < .25:
                a = r.choice(new)
                return ['q', pal, int.from_bytes(bytes(max(0, min(255, v + r.choice([0, 0, -1, 1, 5]))) for v in channels(a)), 'big')]
            h = r.choice(pool) if x < .75 else some_hex(r)
            if r.random() < .06: return ['apx', pal, h, r.choice([1, 2, 5, 16, 300])]
            return ['q', pal, h]
        styles = [dict(fg=['rgb', r.choice(pool)], bg=['rgb', r.choice(pool)] if r.random() < .5 else None, a=[]) for _ in range(2)]
        for _ in range(r.choice([300, 500, 900]) if big else history(r, [4, 8, 16, 30])):
            x = r.random()
            if x < .16 / rare and (free256 or free16):
                pal = r.choice([16, 256])
                f = free256 if pal == 256 else free16
                if f:
                    y = r.random()
                    h = r.choice(pool) if y < .4 else r.choice(list((PAL16 if pal == 16 else PAL256).values())) if y < .55 else r.choice(new) if new and y < .65 else some_hex(r)
                    op = ['reg', pal, h, f.pop(r.randrange(len(f)))]
                    inj = some_inject(r, .25, 25)
                    steps.append(['op', op, inj])
                    if inj: steps.append(['op', op, None])     # the client tries again
                    new.append(h)
                    continue
            if x < .22: steps.append(['op', ['badq', r.choice([16, 256]), r.choice([None, 'red', 1.5])], None])
            elif x < .28: steps.append(['op', ['cfg', True, r.random() < .5, r.random() < .5], None])
            elif x < .36: steps.append(['op', ['r', 'class', r.randrange(2), 'x'], some_inject(r, .2)])
            elif x < .46:
                n = r.choice([2, 3])
                steps.append(['par', [[q() for _ in range(r.choice([1, 2, 3]))] for _ in range(n)], some_turns(r, n)])
            else: steps.append(['op', q(), some_inject(r, .15, 60)])
        return dict(styles=styles, steps=steps, shuffle=r.randrange(1 << 30))

    def evaluate(self, sc, cx):
        res = note_lib(cx, lib.run_lib(sc))
        answers = self.judge(sc, res, cx)
        # the same epochs with other query orders
        import random
        r = random.Random(sc['shuffle'])
        steps, cur = [], []

        def flush():
            r.shuffle(cur)
            keep = [o for o in cur if r.random() < .7]
            steps.extend(['op', o, None] for o in keep)
            cur.clear()
        for st in sc['steps']:
            if st[0] == 'op' and st[1][0] == 'reg':
                flush()
                steps.append(['op', st[1], None])
            else:
                cur.extend(o for o in ([st[1]] if st[0] == 'op' else [o for c in st[1] for o in c]) if o[0] == 'q')
        flush()
        sc2 = dict(sc, steps=steps)
        res2 = note_lib(cx, lib.run_lib(sc2))
        again = self.judge(sc2, res2, cx)
        for k, v in again.items():
            if k in answers:
                need(answers[k] == v, 'order', f'query {k[1:]} gives {v} instead of {answers[k]} if asked in another order')
                cx.hit('same answer in another order')

    def judge(self, sc, res, cx):
        pal = {16: {h: {c} for c, h in PAL16.items()}, 256: {h: {c} for c, h in PAL256.items()}}   # hex -> codes
        epoch = 0
        ans = {}
        for k, ci, o, got, inj in step_results(sc, res):
            w = f'step {k}' + (f', client {ci}' if ci is not None else '') + f', {o}'
            if o[0] == 'reg':
                if got[0] == 'exc':
                    need(inj, 'exception', f'{w}: {got[1:]}')
                    continue
                if o[2] not in pal[o[1]]:
                    pal[o[1]][o[2]] = {o[3]}
                    epoch += 1
                    cx.hit('registration')
                else:
                    cx.hit('registration of a known value')
                continue
            if o[0] == 'badq':
                need(got[0] == 'exc' and got[1] == 'TypeError', 'bad-query', f'{w}: {got}')
                continue
            if got[0] == 'exc':
                need(inj and got[1] in ('KeyboardInterrupt', 'MemoryError'), 'exception', f'{w}: {got[1:]}')
                cx.hit('query cut')
                continue
            if o[0] not in ('q', 'apx'): continue
            p = pal[o[1]]
            best = min(dist(h, o[2]) for h in p)
            rows = [got[1]] if o[0] == 'q' else got[1]
            for row in rows:
                need(row[0] in p and row[1][-1] in p[row[0]], 'not-registered', f'{w}: answer {row} is not a registered colour')
            need(dist(rows[0][0], o[2]) == best, 'not-nearest', f'{w}: answer {rows[0][0]:06x} is not the nearest (distance² {dist(rows[0][0], o[2])}, possible {best})')
            if o[0] == 'apx':
                ds = [dist(x[0], o[2]) for x in rows]
                need(ds == sorted(dist(h, o[2]) for h in p)[:o[3]], 'approximate', f'{w}: distances {ds}')
                continue
            key = (epoch, o[1], o[2])
            if key in ans:
                need(ans[key] == got[1], 'changed', f'{w}: {got[1]} instead of {ans[key]} as answered before')
                cx.nontrivial = True
                cx.hit('repeated query')
            if any((e, o[1], o[2]) in ans for e in range(epoch)):
                cx.nontrivial = True
                cx.hit('asked again after a registration')
            ans[key] = got[1]
        if res['fires']: cx.nontrivial = True
        if res['switches']: cx.hit('threads interleaved')
        return ans


# ------------------------------------------------------------------------ C22

FORMATS = ['', '>10', '<12', '^9', '*^15', 's', '.3', '10.2', '>2', '_<7s', '0>5', '>40', 'd', '=10']


class C22(Check):
    id = 'C22'
    quick, thorough = 6000, 240000
    rule = ('histories of creations, appends, prepends, concatenations, renderings with every renderer, formattings and measurements of texts sharing their parts, by '
            'several clients and by groups of threads switched at arbitrary source lines, with interrupts inside of read-only operations; non-trivial = a text '
            'was read at least twice after it had been combined with another one, or clients were switched, or an exception was injected')
    components = LIBCOMP
    assumptions = ['Operations that change a text are not concurrent with operations on the same text.']

    def gen(self, r, i, tier):
        styles = some_styles(r, r.choice([2, 3]))
        ns = len(styles)
        steps, tids, runs = [], [], {}
        if r.random() < .8: steps.append(['op', ['cfg', r.choice([True, True, True, None]), r.random() < .3, r.random() < .2], None])

        def fresh():
            t = len(tids)
            tids.append(t)
            return t
        for _ in range(r.choice([2, 3, 4])):
            rr = some_runs(r, ns) if r.random() < .5 else [[some_value(r), some_run_style(r, ns)]]
            steps.append(['op', ['mk', fresh(), rr], None])

        def read():
            t = r.choice(tids)
            x = r.random()
            if x < .5: return ['rt', t, r.choice(['str', 'render', 'len', 'raw', 'raw', 'sgr', 'debug', 'noop', 'html', 'tmux'])]
            if x < .9: return [r.choice(['fmt', 'fmt', 'fstr']), t, r.choice(FORMATS)]
            return ['pct', t]
        def weight(rr): return sum(1 + len(shown(text)) // 60 for text, _ in rr)
        objs, size = {}, {}       # numbers of parts: texts that are doubled again and again must not explode
        for st in steps:
            if st[1][0] == 'mk': objs[st[1][1]], size[st[1][1]] = st[1][1], weight(st[1][2])
        for _ in range(history(r, [4, 8, 16, 30])):
            x = r.random()
            t = r.choice(tids)
            arg = ['t', r.choice(tids)] if r.random() < .6 else ['s', some_text(r)]
            if arg[0] == 't' and size[objs[t]] + size[objs[arg[1]]] > 150: arg = ['s', 'z']
            if x < .34: size[objs[t]] += size[objs[arg[1]]] if arg[0] == 't' else weight([[arg[1], None]])
            if x < .12: steps.append(['op', ['append', t, arg], None])
            elif x < .20: steps.append(['op', ['prepend', t, arg], None])
            elif x < .25: steps.append(['op', ['add', t, arg, self.dest(r, tids, fresh, objs, t)], None])
            elif x < .30: steps.append(['op', ['iadd', t, arg], None])
            elif x < .34: steps.append(['op', ['radd', some_text(r), t, self.dest(r, tids, fresh, objs, t)], None])
            elif x < .36: steps.append(['op', ['bad', t, r.choice(['append', 'prepend', 'add', 'radd', 'iadd']), r.choice([12, None, 1.5, [], ['a']])], None])
            elif x < .40:
                rr, t = some_runs(r, ns), fresh()
                objs[t], size[t] = t, weight(rr)
                steps.append(['op', ['mk', t, rr], None])
            elif x < .50:
                n = r.choice([2, 3])
                steps.append(['par', [[read() for _ in range(r.choice([1, 2, 4]))] for _ in range(n)], some_turns(r, n)])
            else:
                steps.append(['op', read(), some_inject(r, .12, 60)])
        for t in tids: steps.append(['op', ['rt', t, 'sgr'], None])
        return dict(styles=styles, steps=steps)

    def dest(self, r, tids, fresh, objs, t):
        d = r.choice(tids) if r.random() < .5 else fresh()
        objs[d] = objs[t]
        return d

    def evaluate(self, sc, cx):
        res = note_lib(cx, lib.run_lib(sc))
        cfg = dict(force=False, c256=False, c16=False, tty=False)
        sty = [effective(s) for s in sc['styles']]
        objs, heap = {}, {}     # name -> identity, identity -> runs
        combined, reads = set(), 0
        earlier = {}

        def val(x):
            return [(x[1], None)] if x[0] == 's' else list(heap[objs[x[1]]])
        for k, ci, o, got, inj in step_results(sc, res):
            w = f'step {k}' + (f', client {ci}' if ci is not None else '') + f', {o}'
            name = o[0]
            if inj and got[0] == 'exc':
                need(got[1] in ('KeyboardInterrupt', 'MemoryError', 'RuntimeError', 'ValueError'), 'exception', f'{w}: {got[1:]}')
                cx.hit('read cut')
                continue
            if name == 'bad':
                need(got[0] == 'exc' and got[1] == 'TypeError', 'bad-append', f'{w}: {got}')
                continue
            if name in ('fmt', 'fstr', 'pct'):
                runs = heap[objs[o[1]]]
                if name != 'pct':
                    if len(runs) > 1:
                        # refused by the library; were it not, the whole text would have to be shown
                        need(got[0] == 'ok' or got[1] in ('RuntimeError', 'ValueError'), 'format-many', f'{w}: {got} for a text of {len(runs)} parts')
                        if got[0] == 'ok':
                            try: whole = format(''.join(x[0] for x in runs), o[2])
                            except ValueError: continue
                            need(SEQ.sub('', got[1]) == SEQ.sub('', whole), 'format-many', f'{w}: {got} for a text of {len(runs)} parts')
                        continue
                    try:
                        plain = format(runs[0][0], o[2])
                    except ValueError:
                        need(got[0] == 'exc' and got[1] == 'ValueError', 'format', f'{w}: {got} for an invalid format')
                        continue
                    runs = [(plain, runs[0][1])]
                need(got[0] == 'ok', 'exception', f'{w}: {got}')
                check_render(got[1], runs, cfg, w)
                if objs[o[1]] in combined: reads += 1
                cx.hit('formatted')
                continue
            need(got[0] == 'ok', 'exception', f'{w}: {got[1:]}')
            v = got[1]
            if name == 'cfg': cfg.update(force=o[1], c256=o[2], c16=o[3])
            elif name == 'mk':
                objs[o[1]] = k
                heap[k] = [(shown(s), run_style(st, sty)) for s, st in o[2]]
            elif name in ('append', 'iadd', 'add', 'prepend', 'radd'):
                if name == 'radd':
                    i, a = objs[o[2]], [(o[1], None)]
                else:
                    i, a = objs[o[1]], val(o[2])
                heap[i] = a + heap[i] if name in ('prepend', 'radd') else heap[i] + a
                if name == 'add': objs[o[3]] = i
                if name == 'radd': objs[o[3]] = i
                combined.add(i)
                if name not in ('radd',) and o[2][0] == 't': combined.add(objs[o[2][1]])
                cx.hit('combined')
            elif name == 'rt':
                i = objs[o[1]]
                runs, how = heap[i], o[2]
                text = ''.join(t for t, _ in runs)
                if i in combined: reads += 1
                if how == 'len': need(v == len(text), 'len', f'{w}: {v} instead of {len(text)}')
                elif how in ('raw', 'noop'): need(v == text, 'raw', f'{w}: {short(v)} instead of {short(text)}')
                elif how == 'debug':
                    if 'ǝ' not in text: check_render(from_debug(v), runs, cfg, w, True)
                elif how in ('html', 'tmux'):
                    key = (i, how, tuple((t, repr(s)) for t, s in runs), tuple(cfg.items()))
                    vv = sorted(v.replace('"', ' ').replace(';', ' ').split())      # the order of CSS values is not defined
                    need(earlier.setdefault(key, vv) == vv, 'changed', f'{w}: {short(v)} differs from what was rendered before')
                else:
                    check_render(v, runs, cfg, w)
                cx.hit('rendered')
        cx.nontrivial = reads >= 2 or res['switches'] > 0 or bool(res['fires'])
        if res['switches']: cx.hit('threads interleaved')
