"""Command lines: the same request in any wording is the same run (C30)."""
import errno
import random

from . import gen
from .checks_io import DEFAULT_O, Check, base_spec, norm_err, ok, ordinary, place, sched, tune
from .common import *
from .term import Screen, strip

LONG = dict(text='text', binary='binary', color_markers='color-markers', no_separators='no-separators', no_line_numbers='no-line-numbers',
            decimal_offsets='decimal-offsets', no_offsets='no-offsets', decode='decode', w='columns', f='buffer', L='max-lines', B='max-bytes', m='marker', D='debug')
LONG.update({'focus_' + c: 'focus-' + c for c in gen.CLASSES})
LONG.update({'ignore_' + c: 'ignore-' + c for c in gen.CLASSES})
SHORTS = dict(text='t', binary='b', decode='d', w='w', f='f', L='L', B='B', m='m', D='D')
SHORTS.update({'focus_' + c: gen.SHORT[c] for c in gen.CLASSES})
SHORTS.update({'ignore_' + c: gen.SHORT[c].upper() for c in gen.CLASSES})
ALL_LONG = sorted(LONG.values()) + ['legend', 'version', 'help', 'demo']
VALUED = ('w', 'f', 'L', 'B', 'm')
NAMES = ['in.bin', 'in.bin', 'in.bin', '-', '8', '-5', '-b', '--demo', 'a b', 'x=y', '--columns=8', 'путь', '@x', 'no ext', '.hidden', '-w8', '%s', 'a\nb', '~', '*', ' lead', 'trail ', 'in.bin.gz', 'a.txt', 'a.TXT', 'x.log', 'y.json', 'demo.bin', '$HOME', 'a#b', 'é']


def abbreviations(name):
    return [name[:k] for k in range(2, len(name)) if sum(x.startswith(name[:k]) for x in ALL_LONG) == 1]


def requests(o):
    """The options of a request: [(name, value or None)]."""
    q = []
    if o['mode'] == 'b': q.append(('binary', None))
    if o['mode'] == 't': q.append(('text', None))
    for c in o['focus']: q.append(('focus_' + c, None))
    for c in o['ignore']: q.append(('ignore_' + c, None))
    for k in ('color_markers', 'no_separators', 'no_line_numbers', 'decimal_offsets', 'no_offsets', 'decode'):
        if o[k]: q.append((k, None))
    for k in VALUED:
        if o[k] is not None and not (k == 'm' and not o[k]): q.append((k, o[k]))
    q += [('D', None)] * o['D']
    return q


def wording(o, src, name, seed, extra=()):
    """One of the many command lines for the request."""
    r = random.Random(seed)
    q = requests(o)
    if o['mode'] == '' and r.random() < .5: q.append(('text', None))            # explicit defaults
    for k, v in (('w', 0), ('L', 0), ('B', 0), ('m', 0), ('f', 128 if o['D'] else 4096)):
        if (k, o[k]) not in q and r.random() < .15: q.append((k, v))
    q += extra
    r.shuffle(q)
    for k, v in list(q):
        if k != 'D' and r.random() < .12:     # said twice: the last value counts
            i = r.randint(0, q.index((k, v)))
            q.insert(i, (k, v if v is None else r.choice([0, 1, 2, 3, 5, 8, 16, 100])))
    # the operand
    word = None
    if src in ('file', 'fifo'): word = r.choice(['@F@', '@F@', './@F@', '@A@', '././@F@'])
    elif src == 'dash' or r.random() < .4: word = '-'
    ends = False
    if word == '@F@' and name.startswith('-'):
        ends = name != '-' and r.random() < .5
        if not ends: word = './@F@'
    at = len(q) if ends or word is None else r.randint(0, len(q))
    argv, bundle = [], False

    def put(n):
        if n == at and word is not None:
            if ends or n == len(q) and r.random() < .2: argv.append('--')
            argv.append(word)
            return True
    long = r.choice([0, .3, .7, 1])
    for n, (k, v) in enumerate(q):
        if put(n): bundle = False
        if k not in SHORTS or r.random() < long:
            w = '--' + (r.choice(abbreviations(LONG[k])) if r.random() < .25 and abbreviations(LONG[k]) else LONG[k])
            if v is None: argv.append(w)
            elif r.random() < .5: argv.append(f'{w}={v}')
            else: argv += [w, str(v)]
            bundle = False
            continue
        s = SHORTS[k]
        joined = bundle and r.random() < .6
        if joined: argv[-1] += s
        else: argv.append('-' + s)
        bundle = v is None
        if v is not None:
            how = r.choice(['glued', 'apart', 'equals'])
            if how == 'apart': argv.append(str(v))
            elif how == 'equals' and not joined: argv[-1] += f'={v}'
            else: argv[-1] += str(v)
    put(len(q))
    return argv


def mistake(o, src, name, seed):
    """A command line which differs from an acceptable one in one thing that makes no sense."""
    r = random.Random(seed)
    o = dict(o)
    extra, tail, head = [], [], []
    kind = r.choice(['mode', 'class', 'class', 'offsets', 'value', 'missing', 'unknown', 'ambiguous', 'flag value', 'operands'])
    if kind == 'mode':
        o['mode'] = ''
        extra = [[('text', None), ('binary', None)], [('text', None), ('legend', None)], [('binary', None), ('legend', None)]][r.randrange(3)]
    elif kind == 'class':
        c = r.choice(gen.CLASSES)
        extra = [(h, None) for h in ('focus_' + c, 'ignore_' + c)]
    elif kind == 'offsets':
        extra = [('decimal_offsets', None), ('no_offsets', None)]
    elif kind == 'value':
        k, v = r.choice(VALUED), r.choice(['x', '1.5', '8k', '0x10', '1e3', '--', 'auto', '1,000', '½'])
        head = [f'--{LONG[k]}={v}'] if r.random() < .5 else [f'-{SHORTS[k]}={v}'] if r.random() < .5 else [f'-{SHORTS[k]}{v}']
    elif kind == 'missing':
        k = r.choice(VALUED)
        tail = ['--' + LONG[k]] if r.random() < .5 else ['-' + SHORTS[k]]
    elif kind == 'unknown':
        head = [r.choice(['--nope', '-z', '-9x', '--focus-all', '--ignore-text', '--columnss', '--Binary', '-bz', '--demo-mode', '-x8', '--max-line-numbers', '--no-such', '-Q', '-H', '-a'])]
    elif kind == 'ambiguous':
        head = [r.choice(['--no', '--no-', '--focus', '--ignore-', '--max-', '--de', '--m', '--ma', '--dec', '--foc=1', '--b', '--l=', '--col', '--ve'])]
        head = [x for x in head if sum(n.startswith(x.lstrip('-').partition('=')[0]) for n in ALL_LONG) > 1] or ['--no-']
    elif kind == 'flag value':
        head = [r.choice(['--binary=1', '--decode=yes', '--text=', '--debug=2', '--no-offsets=0', '--focus-esc=1', '--color-markers=always', '-d=1'])]
    else:
        head = ['@F@' if not name.startswith('-') else './@F@', r.choice(['other', './@F@', '@A@'])]
    LONG['legend'], SHORTS['legend'] = 'legend', 'l'
    try:
        a = wording(o, 'stdin' if kind in ('operands', 'missing') else src, name, r.randrange(1 << 30), extra)
    finally:
        del LONG['legend'], SHORTS['legend']
    if kind == 'missing': a = [x for x in a if x not in ('-', '--')]
    if kind == 'operands': a = [x for x in a if x not in ('-', '--')]
    return head + a + tail


class C30(Check):
    id = 'C30'
    quick, thorough = 1500, 60000
    rule = ('requests x wordings (order, short, long, abbreviated, bundled and repeated options, glued, separate and "=" values, explicit defaults, names and paths of the '
            'file, its position) x deliveries with errors and interrupts, in fresh processes and one after another in one process, with command lines that make no '
            'sense in between; non-trivial = the command line is not the canonical one')

    def gen(self, r, i, tier):
        o = gen.options(r)
        o['D'] = r.choice([0, 0, 0, 0, 1, 2, 3])
        o['w'] = r.choice([o['w'], None, -1, -8])
        o['long'] = False
        inp = gen.small_input(r, r.choice([20, 60, 200]), boost=['lf', 'sgr', 'ctl'])
        o['f'] = r.choice([None, None, 1, 3, 8, 4096])
        if r.random() < .25: o['B'] = r.randint(1, 30)
        if r.random() < .2: o['L'] = r.randint(1, 4)
        src = gen.source(r)
        sc = dict(o=o, inp=inp, src=src, plan=sched(r, inp), name=r.choice(NAMES) if src in ('file', 'fifo') else 'in.bin',
                  term=[[0, r.choice([80, 80, 40, 61, 200])]], calls=[[r.choice(['good', 'good', 'bad']), r.randrange(1 << 30)] for _ in range(r.choice([2, 3]))])
        if o['D'] and '\n' in sc['name']: sc['name'] = 'in.bin'     # a diagnostic line contains the name
        k = r.random()
        if k < .1: place(r, sc['plan'], ['err', errno.EIO])
        elif k < .2: place(r, sc['plan'], ['ki'])
        return sc

    def evaluate(self, sc, cx):
        o, src, name = sc['o'], sc['src'], sc['name']
        plain = base_spec(sc)
        ref = cx.run(plain)
        specs = [plain]
        for kind, seed in sc['calls']:
            argv = wording(o, src, name, seed) if kind == 'good' else mistake(o, src, name, seed)
            s = dict(plain, argv=argv, name=name)
            if kind == 'bad': s['tail'] = 'stuck'
            specs.append(s)
            cx.nontrivial = cx.nontrivial or argv != plain['argv']
            self.judge(kind, sc, s, ref, cx.run(s), 'fresh')
        for (kind, _), s, h in zip([('good', 0), *sc['calls']], specs, cx.history(specs)):
            need(h['stop'] is None, 'no-termination', f'{s["argv"]}: {h["stop"]}')
            self.judge(kind, sc, s, ref, h, 'after other runs')

    def judge(self, kind, sc, s, ref, a, how):
        argv = s['argv']
        if kind == 'bad':
            need(a['status'] == 2, 'accepted', f'{argv} ({how}): status {a["status"]} instead of 2, output {short(a["out"], 60)}, stderr {short(a["err"], 80)}')
            need('usage' in strip(a['err'].decode()).lower(), 'usage-message', f'{argv} ({how}): no usage on stderr: {short(a["err"])}')
            need(not a['out'], 'usage-output', f'{argv} ({how}): something is printed: {short(a["out"])}')
            used = [e for e in a['log'] if e[1] in ('req', 'rawread', 'poison', 'seek', 'open')]
            need(not used, 'touched', f'{argv} ({how}): the input is used: {used[:1]}')
            return
        need(a['status'] == ref['status'], 'other-status', f'{argv} ({how}): status {a["status"]}, but {ref["status"]} with {base_spec(sc)["argv"]}; stderr {short(a["err"])}')
        x, y = a['out'], ref['out']
        named = sc['src'] in ('file', 'fifo') and not (sc['name'] == 'in.bin' and '@F@' in argv)
        if sc['o']['D'] >= 3 or sc['o']['D'] and named:       # the settings and the path are printed as they were given
            x, y = ([ln.key() for ln in ordinary(Screen(decode(b)))] for b in (x, y))
            if sc['o']['D'] < 3: need(a['out'].count(b'\n') == ref['out'].count(b'\n'), 'other-output', f'{argv} ({how}): not the diagnostics of {base_spec(sc)["argv"]}')
            need(x == y, 'other-output', f'{argv} ({how}): not the output of {base_spec(sc)["argv"]}')
            return
        if x != y:
            k = lcp(x, y)
            raise Violation('other-output', f'{argv} ({how}): not the output of {base_spec(sc)["argv"]}: {short(x[k:k + 60])} instead of {short(y[k:k + 60])} at {k}')
        need(norm_err(a['err']) == norm_err(ref['err']), 'other-stderr', f'{argv} ({how}): stderr {short(a["err"])} instead of {short(ref["err"])}')
