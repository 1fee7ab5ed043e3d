"""C31: the generator of the legend (dev/generate_legend.py)."""
import errno
import os
import re

from . import gen, world
from .checks_io import Check, base_spec, injection, mk, repo_file, sched
from .common import *
from .term import strip

TPL = 'dev/legend.tpl.ansi'
CODES = dict(bold=1, dim=2, italic=3, underlined=4, inversed=7, red=31, green=32, yellow=33, blue=34, magenta=35, cyan=36, white=37, gray=90,
             hi_red=91, hi_green=92, hi_yellow=93, hi_blue=94, hi_magenta=95, hi_cyan=96, hi_white=97, bold_dim_off=22, italic_off=23, underlined_off=24)
OPEN, CLOSE = '⟪', '⟫'


def template():
    with world._real_io_open(os.path.join(world.REPO, TPL), 'rb') as f:
        return f.read()


def between(s, start, ok):
    """[(from, to, inner)] of start{ inner } where inner consists of ok characters, optionally surrounded by white space."""
    i, res = 0, []
    while True:
        i = s.find(start + '{', i)
        if i < 0: return res
        j = i + len(start) + 1
        a = j
        while a < len(s) and s[a].isspace(): a += 1
        b = a
        while b < len(s) and ok(s[b]): b += 1
        c = b
        while c < len(s) and s[c].isspace(): c += 1
        if c < len(s) and s[c] == '}':
            res.append((i, c + 1, s[a:b]))
            i = c + 1
        else: i += 1


def word(c): return c.isalnum() or c == '_'


def names(tpl):
    return sorted({n for _, _, n in between(tpl, ':', word) if n})


def rebuilt(s, parts):
    out, i = [], 0
    for a, b, new in parts:
        out += [s[i:a], new]
        i = b
    return ''.join(out) + s[i:]


def sequence(params):
    """Replacement of a format, None if it cannot be."""
    if not params: return '\x1b[m'
    r = []
    for p in params.split(';'):
        if p and all(c in '0123456789' for c in p): r.append(str(int(p)))
        elif p.lower() in CODES: r.append(str(CODES[p.lower()]))
        else: return None
    return '\x1b[m' if r == ['0'] else '\x1b[' + ';'.join(r) + 'm'


def expected(tpl, values):
    """(result, what cannot be replaced)"""
    unknown = []
    tpl = tpl.replace('\r\n', '\n')
    i = 0                              # comments
    while True:
        i = tpl.find('#{}', i)
        if i < 0: break
        j = tpl.find('{}#', i + 3)
        eol = tpl.find('\n', i)
        if j < 0 or 0 <= eol < j: i += 1
        else: tpl = tpl[:i] + '\0' + tpl[j + 3:]
    tpl = tpl.replace('\0', '')
    parts = []
    for a, b, p in between(tpl, '^', lambda c: word(c) or c == ';'):
        new = sequence(p)
        if new is None: unknown.append(p)
        else: parts.append((a, b, new))
    tpl = rebuilt(tpl, parts)
    parts = []
    for a, b, p in between(tpl, ':', word):
        if not p: continue
        if p in values: parts.append((a, b, values[p]))
        else: unknown.append(p)
    return rebuilt(tpl, parts), unknown


class C31(Check):
    id = 'C31'
    quick, thorough = 3000, 48000
    level = 'fault_enumeration'
    rule = ('runs of the generator with the real template and with made-up ones x clock x deliveries and failures of the template x failures of the written file and of the '
            'terminal x interrupts and allocation failures at executed source lines, after runs of the application and of the generator in the same process; '
            'non-trivial = a fault was injected, the template is made up, or something ran before')
    components = dict(real=['dev/generate_legend.py (a copy in a scratch directory)', 'dev/es7s_tpl_processor.py', 'kolombos (all modules)', 'pytermor (all modules)'],
                      stub=['raw input and output devices', 'open()', 'clock', 'terminal size', 'interpreter exit (flush of standard streams)'])

    def some_template(self, r):
        lines = template().decode().split('\n')
        ns = names('\n'.join(lines))
        out = []
        for _ in range(r.choice([1, 2, 5, 12, 12, 150])):
            k = r.random()
            if k < .35: out.append(r.choice(lines))
            else:
                out.append(''.join(r.choice([
                    lambda: ':{%s}' % r.choice(ns), lambda: ':{  %s }' % r.choice(ns), lambda: '^{%s}' % ';'.join(r.choice(sorted(CODES)) for _ in range(r.choice([1, 1, 2, 3]))),
                    lambda: '^{}', lambda: '^{ }', lambda: '^{%d;5;%d}' % (r.choice([38, 48]), r.randint(0, 255)), lambda: '^{ BOLD }', lambda: '^{%d}' % r.choice([0, 1, 7, 31, 107]),
                    lambda: ':{no_such_%d}' % r.randint(1, 99), lambda: '^{no_such_%d}' % r.randint(1, 99), lambda: '^{red;nope}', lambda: '^{²}', lambda: '^{%s}' % ';'.join(str(r.choice([r.randint(1, 107), r.choice(sorted(CODES))])) for _ in range(r.choice([4, 5, 6, 9]))), lambda: '^{%d;2;%d;0;255}' % (r.choice([38, 48]), r.randint(0, 255)), lambda: '#{}', lambda: '{}#', lambda: '#{}note{}#',
                    lambda: '#{}:{%s}{}#' % r.choice(ns), lambda: '#{}%s{%s}{}#' % (r.choice(':^'), r.choice(['no_such', 'nope', ns[0], 'red'])), lambda: r.choice(':^') + '#{}x{}#{%s}' % r.choice([ns[-1], 'bold']), lambda: 'text', lambda: ' ', lambda: '{', lambda: '}', lambda: ':', lambda: '^', lambda: '#', lambda: ':{}', lambda: '\\1', lambda: '\\g<0>',
                    lambda: '€', lambda: '\t', lambda: '\x1b[1m', lambda: ':{a b}', lambda: ':{x', lambda: '{ver}', lambda: '%s', lambda: '# Generated'])() for _ in range(r.choice([1, 3, 8]))))
        eol = r.choice(['\n'] * 7 + ['\r\n'])
        return eol.join(out) + r.choice(['', eol, eol * 2])

    def gen(self, r, i, tier):
        runs = []
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            if r.random() < .4: runs.append(['gen'])
            else:
                o = gen.options(r)
                o['D'] = r.choice([0, 0, 0, 1])
                inp = gen.small_input(r, 40, boost=['sgr', 'ctl'])
                runs.append(['app', mk(o, inp, gen.source(r), [])])
        sc = dict(runs=runs + [['last']], now=r.choice([0, 1684735920, 951782400, r.randint(0, 4 * 10 ** 9)]), plan=[], tty=r.random() < .75, old=r.choice([1, 1, 0, 30, 2000]), mode=r.choice(['line', 'line', 'buffered', 'unbuffered']),
                  tpl=self.some_template(r).encode().hex() if r.random() < .5 else None)
        n = len(bytes.fromhex(sc['tpl'])) if sc['tpl'] else 5500
        k = r.choice(['none', 'none', 'read', 'wopen', 'disk', 'disk', 'out', 'ki', 'mem', 'utf8', 'open'])
        if r.random() < .6: sc['plan'] = gen.plan(r, min(n, 300), 'any', True)
        if k == 'read':
            ev = r.choice([['err', errno.EIO], ['err', errno.EISDIR], ['ki']])
            sc['plan'] = gen.plan(r, min(n, 300), 'any', True)
            sc['plan'].insert(r.randint(0, len(sc['plan'])), ev)
        elif k == 'open': sc['open'] = r.choice([['err', errno.ENOENT], ['err', errno.EACCES], ['ki']])
        elif k == 'wopen': sc['wopen'] = r.choice([errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EMFILE])
        elif k == 'disk': sc['disk'] = [[r.choice([0, 1, 4096, 8192, 8191, r.randint(0, 24100), r.randint(0, 24100), r.randint(0, 2 * n)]), r.choice(['full', 'full', 'eio', 'eio1', 'short', 'ki'])]]
        elif k == 'out': sc['outf'] = [[r.choice([0, 0, r.randint(0, 60)]), r.choice(['full', 'pipe', 'eio', 'eio1', 'ki'])]]
        elif k in ('ki', 'mem'): sc['exc'], sc['frac'] = k, r.random()
        elif k == 'utf8': sc['tpl'] = ((bytes.fromhex(sc['tpl']) if sc['tpl'] else b'abc\n') + r.choice([b'\xff', b'\xc3', b'\xed\xa0\x80']) + b'\n').hex()
        return sc

    def evaluate(self, sc, cx):
        spec = dict(script='legend', argv=[], old=sc['old'], now=sc['now'], plan=sc['plan'], out=dict(tty=sc['tty'], mode=sc['mode'], faults=sc.get('outf', [])), disk=sc.get('disk', []))
        for k in ('wopen', 'open'):
            if sc.get(k): spec[k] = sc[k]
        if sc['tpl']: spec['template'] = [[sc['tpl'], 1]]
        calm = dict(spec, plan=[], disk=[], out=dict(tty=sc['tty'], mode=sc['mode']))
        for k in ('wopen', 'open'): calm.pop(k, None)
        raw = bytes.fromhex(sc['tpl']) if sc['tpl'] else template()
        try:
            text, bad = raw.decode(), False
        except UnicodeDecodeError:
            text, bad = '', True
        ref = cx.run(calm)
        self.files(ref)
        if bad:
            need(ref['status'] not in (0, None) and ref['err'], 'silent', f'the template is not UTF-8, but the status is {ref["status"]}')
            self.intact(ref, calm)
        else:
            need(ref['status'] == 0 and not ref['uncaught'], 'failed', f'status {ref["status"]}, {short(ref["err"][-200:])}')
            self.contents(sc, ref, text, cx, calm)
        if 'frac' in sc or 'at' in sc:
            at = sc.get('at')
            if at is None:
                rec = cx.run(dict(spec, inject=dict(exc='record')))
                if rec['sites']: at = 1 + int(sc['frac'] * len(rec['sites']))
            if at is not None: spec['inject'] = dict(exc=sc['exc'], at=at)
        specs = []
        for kind, *x in sc['runs']:
            specs.append(spec if kind == 'last' else calm if kind == 'gen' else base_spec(x[0]))
        res = cx.history(specs)
        apps = [x[0] for kind, *x in sc['runs'] if kind == 'app']
        cx.nontrivial = bool(sc['tpl'] or len(sc['runs']) > 1 or cx.faults)
        for (kind, *x), s, a in zip(sc['runs'], specs, res):
            need(a['stop'] is None, 'no-termination', f'{kind}: {a["stop"]}')
            if kind == 'app':
                if any(k == 'gen' for k, *_ in sc['runs']):
                    f = cx.run(s)
                    need((a['status'], a['out']) == (f['status'], f['out']), 'application', f'{s["argv"]} shows something else after the generator has run: {short(a["out"])}')
                continue
            self.files(a)
            have, want = a['legend'] or b'', ref['legend'] or b''
            hurt = a['input_failed'] or a['output_failed'] or a['interrupted'] or bool(injection(a)) or bool(s.get('open'))
            if not hurt:
                need(a['status'] == ref['status'] and have.rpartition(b'#')[0] == want.rpartition(b'#')[0], 'history', f'another legend after {len(sc["runs"]) - 1} runs: status {a["status"]}, '
                     f'{short(have[lcp(have, want):])}')
                need(a['out'] == ref['out'], 'history', f'another report: {short(a["out"])} instead of {short(ref["out"])}')
                continue
            told = b'Wrote' in a['out']
            full = ref['legend']
            whole = a['legend'] == full and not bad
            if a['status'] == 0: need(whole, 'false-success', f'status 0, but the legend is {short(a["legend"] or b"")} ({len(a["legend"] or b"")} of {len(full)} bytes); {a["fires"]}')
            if told: need(whole, 'false-report', f'{short(a["out"])} is reported, but {len(a["legend"] or b"")} of {len(full)} bytes are in the file; {a["fires"]}')
            if not injection(a) and not (sc.get('outf') and whole): need(a['status'] != 0, 'false-success', f'status 0 in spite of {a["fires"]}')
            if sc.get('outf') and a['output_failed']: need(a['status'] != 0, 'false-success', f'status 0 in spite of {a["fires"]}')
            if not any(e[1] == 'create' for e in a['log']) or s.get('wopen'): self.intact(a, s)
            got = a['legend'] or b''
            need(full.startswith(got) or got == world.LegendWorld.previous(s), 'corrupted', f'{short(got[lcp(got, full):])} is in the file')

    def intact(self, a, s):
        need(a['legend'] == world.LegendWorld.previous(s), 'lost', f'nothing was written, but the previous legend is gone: {short(a["legend"] or b"")}')

    def files(self, a):
        need(a['files'] is not None and not a['dir_changed'] and not a['foreign_writes'], 'writes', f'other files are written: {a["files"]} {a["foreign_writes"]}')
        extra = set(a['files']) - {'kolombos/legend.ansi', 'dev/legend.tpl.ansi'}
        if a['status'] == 0: need(not extra, 'writes', f'other files are left: {sorted(extra)}')

    def contents(self, sc, ref, text, cx, calm):
        need(ref['legend'], 'contents', 'no legend is written')
        got = ref['legend'].decode()
        m = re.fullmatch('(?s)(.*)\n# Generated at ([^\n]*)', got)
        need(m, 'contents', f'the legend ends with {short(got[-80:])}')
        head = m[1]
        said = strip(ref['out'].decode())
        n = re.search('Wrote ([0-9 ]+) bytes', said)
        need(n and int(n[1].replace(' ', '')) == len(ref['legend']), 'report', f'{short(said)}, the file has {len(ref["legend"])} bytes')
        if not sc['tpl']:
            import kolombos.version
            shipped = repo_file('legend.ansi').decode().rpartition('\n#')[0]
            want = re.sub('v[0-9]+[.][0-9]+[.][0-9]+', 'v' + kolombos.version.__version__, shipped, count=1)
            if not sc['tty']: head, want = strip(head), strip(want)
            k = lcp(head, want)
            need(head == want, 'contents', f'not the legend that is shipped: {short(head[k:k + 80])!r} instead of {short(want[k:k + 80])!r} at {k}')
            return
        ns = names(template().decode())
        probe = cx.run(dict(calm, template=[[''.join(f'{OPEN}{x}{CLOSE}:{{{x}}}{OPEN}/{CLOSE}\n' for x in ns).encode().hex(), 1]]))
        values = {x: v for x, v in re.findall(f'(?s){OPEN}([^/{CLOSE}]+){CLOSE}(.*?){OPEN}/{CLOSE}', probe['legend'].decode())}
        need(sorted(values) == ns, 'contents', f'only {len(values)} of {len(ns)} variables are replaced')
        want, unknown = expected(text, values)
        if want.endswith('\n'): want = want[:-1]
        k = lcp(head, want)
        need(head == want, 'contents', f'{short(text)!r} becomes {short(head[k:k + 80])!r} instead of {short(want[k:k + 80])!r} at {k}')
        msgs = strip((ref['out'] + ref['err']).decode())
        if not unknown: need(not ref['err'], 'warning', f'{short(text)!r} is fine, but {short(ref["err"])} is printed')
        for u in unknown:
            need(f'"{u}"' in msgs, 'no-warning', f'nothing is said about {u!r}: {short(msgs)}')
