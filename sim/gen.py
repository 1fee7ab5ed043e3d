"""Seeded generators of inputs, options and delivery schedules."""
import random

UTF8_EDGES = [0x80, 0x9b, 0x9f, 0xa0, 0xad, 0xe9, 0x416, 0x7ff, 0x800, 0x20ac, 0x2028, 0x21e5, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff,
              0x10000, 0x1f600, 0x301, 0x3fff, 0x40000, 0xfffff, 0x100000, 0x10ffff]
KINDS = ['word', 'prn', 'sp', 'tab', 'lf', 'crlf', 'ws', 'nul', 'bs', 'del', 'ctl', 'ctlrun', 'esc', 'utf8', 'utf8run', 'badutf', 'bin',
         'binrun', 'csi', 'sgr', 'sgr0', 'sgrx', 'sgrbad', 'priv', 'nf', 'fp', 'fe', 'fs', 'cut', 'rnd', 'run', 'c1']


def word(r, n=None):
    return bytes(r.choice(b'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789[];:m?<>=@`{|}~!"#$%&\'()*+,-./\\^_') for _ in range(n or r.randint(1, 8)))


def utf8(r):
    if r.random() < .35:
        cp = r.choice(UTF8_EDGES)
    else:
        lo, hi = r.choice([(0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff), (0x80, 0x9f), (0x400, 0x44f)])
        cp = r.randint(lo, hi)
    return chr(cp).encode()


def sgr_code(r):
    k = r.random()
    if k < .15: return f'{r.choice([38, 48])};5;{r.choice([0, 1, 16, 102, 210, 231, 255, r.randint(0, 255)])}'
    if k < .25: return f'{r.choice([38, 48])};2;{r.randint(0, 255)};{r.randint(0, 255)};{r.choice([0, 9, 255])}'
    if k < .55: return str(r.choice([30, 31, 35, 37, 40, 41, 44, 47, 90, 93, 97, 100, 107, 39, 49, 38, 48]))
    if k < .85: return str(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 21, 22, 24, 27, 53, 55]))
    return str(r.choice([r.randint(0, 120), '', '01', '007', '4:3', ':', '58', '999', '38;5', '48;2;1', '1000000']))


def token(r, kind):
    c = r.choice
    if kind == 'word': return word(r)
    if kind == 'prn': return word(r, 1)
    if kind == 'sp': return b' ' * c([1, 1, 1, 2, 4])
    if kind == 'tab': return b'\t' * c([1, 1, 2, 3])
    if kind == 'lf': return b'\n' * c([1, 1, 1, 2, 3])
    if kind == 'crlf': return b'\r\n'
    if kind == 'ws': return bytes(c(b'\x0b\x0c\r\r \t') for _ in range(c([1, 1, 2, 3])))
    if kind == 'nul': return b'\0' * c([1, 1, 2, 5, 16])
    if kind == 'bs': return b'\x08' * c([1, 2])
    if kind == 'del': return b'\x7f' * c([1, 2])
    if kind == 'ctl': return bytes([c(CTL)])
    if kind == 'ctlrun': return bytes(c(CTL) for _ in range(r.randint(2, 6)))
    if kind == 'esc': return b'\x1b' * c([1, 1, 2, 3])
    if kind == 'utf8': return utf8(r)
    if kind == 'utf8run': return b''.join(utf8(r) for _ in range(r.randint(2, 6)))
    if kind == 'c1': return chr(r.randint(0x80, 0x9f)).encode() if r.random() < .6 else bytes([r.randint(0x80, 0x9f)])
    if kind == 'badutf':
        k = r.randint(0, 5)
        if k == 0: return c([b'\xc0\xaf', b'\xe0\x80\xaf', b'\xf0\x80\x80\xaf', b'\xc1\xbf', b'\xe0\x9f\xbf', b'\xf0\x8f\xbf\xbf'])
        if k == 1: return c([b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xed\xa0\xbd\xed\xb8\x80'])
        if k == 2: return c([b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xff', b'\xfe'])
        u = utf8(r)
        if k == 3: return u[:-1] if len(u) > 2 else u[:1]
        if k == 4: return u[1:]
        return u[:r.randint(1, len(u))] + utf8(r)
    if kind == 'bin': return bytes([r.randint(0x80, 0xff)])
    if kind == 'binrun': return bytes(r.randint(0x80, 0xff) for _ in range(r.randint(2, 12)))
    if kind == 'csi':
        return b'\x1b[' + c([b'', b'2', b'1;5', b'?25', b'=3', b'>4;1', b'38;5', b'0', b'??', b'99:1']) + c([b'', b'', b'', b' ', b'!', b'$', b'"\'']) + c(b'JHKABhlqr@~{^`ZM').to_bytes(1, 'big')
    if kind == 'sgr': return ('\x1b[' + ';'.join(sgr_code(r) for _ in range(c([1, 1, 1, 2, 3, 5]))) + 'm').encode()
    if kind == 'sgr0': return c([b'\x1b[m', b'\x1b[0m'])
    if kind == 'sgrx': return c([b'\x1b[00m', b'\x1b[;m', b'\x1b[0;0m', b'\x1b[1 m', b'\x1b[31!m', b'\x1b[:m', b'\x1b[4:3;31m', b'\x1b[1;m', b'\x1b[;;31m'])
    if kind == 'sgrbad': return c([b'\x1b[38m', b'\x1b[38;5m', b'\x1b[48;2;1;2m', b'\x1b[38;3;1m', b'\x1b[38;2;300;1;2m', b'\x1b[48;5;999m', b'\x1b[38;48;5;1m', b'\x1b[31;38m'])
    if kind == 'priv': return c([b'\x1b[>4;1m', b'\x1b[?4m', b'\x1b[<1m', b'\x1b[=1m', b'\x1b[1?m'])
    if kind == 'nf': return b'\x1b' + bytes([r.randint(0x20, 0x2f)]) + c([b'', b'', b' ', b'()']) + bytes([r.randint(0x30, 0x7e)])
    if kind == 'fp': return b'\x1b' + bytes([r.randint(0x30, 0x3f)])
    if kind == 'fe': return b'\x1b' + bytes([c([0x40, 0x4d, 0x50, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f])])
    if kind == 'fs': return b'\x1b' + bytes([r.randint(0x60, 0x7e)])
    if kind == 'cut':
        t = token(r, c(['csi', 'sgr', 'nf', 'utf8', 'priv', 'fe']))
        return t[:r.randint(1, max(1, len(t) - 1))] + c([b'', b'', b'\n', b'\x01', b'\xc3\xa9', b'\x1b', b' ', b'z', b'\x7f'])
    if kind == 'rnd': return bytes(r.randint(0, 255) for _ in range(r.randint(1, 8)))
    if kind == 'run': return bytes([c(b'A \x00\xff\x01\t')]) * r.randint(4, 40)
    raise KeyError(kind)


CTL = bytes([*range(1, 8), *range(0x0e, 0x1b), *range(0x1c, 0x20)])


def swarm(r, boost=()):
    """Random weights with some kinds switched off."""
    ks = [k for k in KINDS if r.random() < .5] or ['word', 'lf']
    w = {k: r.choice([1, 1, 2, 5]) for k in ks}
    for k in boost:
        w[k] = w.get(k, 0) + r.choice([2, 4, 8])
    return w


def body(r, maxlen, weights):
    ks, ws = list(weights), list(weights.values())
    out = b''
    n = r.randint(0, maxlen) if r.random() < .8 else r.randint(0, 12)
    while len(out) < n:
        out += token(r, r.choices(ks, ws)[0])
    return out[:n] if r.random() < .5 else out


def pieces(data):
    return [[data.hex(), 1]] if data else []


def pieces_of(parts):
    return [[p.hex(), n] for p, n in parts if p and n]


def small_input(r, maxlen=160, boost=()):
    return pieces(body(r, maxlen, swarm(r, boost)))


def boundary_input(r, chunk, boost=()):
    """Interesting material placed right at the multiples of the read size."""
    w = swarm(r, boost)
    out, total = [], 0
    for _ in range(r.choice([1, 1, 2])):
        mat = body(r, 24, w) or b'\x1b[31m'
        fill = chunk - (total % chunk) - r.randint(0, min(len(mat) + 1, chunk - 1))
        fill = max(0, fill)
        f = r.choice([b'x', b'x', b' ', b'abcdefg\n', b'\x00', b'\xff', 'é'.encode() + b'w' * 30, b'y' * 63 + b'\n'])
        k = fill // len(f)
        out += [[f.hex(), k], [('z' * (fill - k * len(f))).encode().hex(), 1], [mat.hex(), 1]]
        total += fill + len(mat)
    out += [[body(r, 24, w).hex(), 1]]
    return [p for p in out if p[0] and p[1]]


def long_token(r):
    n = r.choice([60, 64, 70, 120, 130, 250, 260, 300, 520, 1000, 1030, 2100, 4000, 4300, 5000])
    k = r.choice(['csi', 'csi', 'sgr', 'sgr', 'sgrx', 'nf', 'inter', 'private', 'word', 'utf8run', 'ctl', 'sp', 'bin', 'nul', 'mixed'])
    if k == 'csi': t = b'\x1b[' + bytes(r.choice(b'0123456789;:') for _ in range(n)) + bytes([r.choice(b'HJAh')])
    elif k == 'private': t = b'\x1b[?' + bytes(r.choice(b'0123456789;<=>?') for _ in range(n)) + bytes([r.choice(b'hlm')])
    elif k == 'sgr':
        c = []
        while sum(map(len, c)) + len(c) < n: c.append(sgr_code(r))
        t = b'\x1b[' + ';'.join(c).encode() + b'm'
    elif k == 'sgrx': t = b'\x1b[' + r.choice([b'0', b'1', b'31;', b';', b'9', b'38;5;', b'4:']) * n + b'm'
    elif k == 'nf': t = b'\x1b' + bytes(r.randint(0x20, 0x2f) for _ in range(n)) + bytes([r.randint(0x30, 0x7e)])
    elif k == 'inter': t = b'\x1b[1' + bytes(r.randint(0x20, 0x2f) for _ in range(n)) + bytes([r.choice(b'Hqm')])
    elif k == 'word': t = word(r, n)
    elif k == 'utf8run': t = b''.join(utf8(r) for _ in range(n // 3))
    elif k == 'ctl': t = bytes(r.choice(CTL) for _ in range(n))
    elif k == 'bin': t = bytes(r.randint(0x80, 0xff) for _ in range(n))
    elif k == 'mixed': t = b''.join(token(r, r.choice(['word', 'sp', 'utf8', 'sgr'])) for _ in range(n // 4))
    else: t = (b' ' if k == 'sp' else b'\0') * n
    if r.random() < .25: t = t[:r.randint(1, len(t))]
    return t


def long_input(r, boost=()):
    """Sequences, runs and lines that are much longer than usual."""
    w = swarm(r, boost)
    return pieces(body(r, 20, w) + b''.join(long_token(r) + body(r, 12, w) for _ in range(r.choice([1, 1, 2]))))


def size_of(p):
    return sum(len(h) // 2 * n for h, n in p)


# -------------------------------------------------------------------- options

CLASSES = ['control', 'esc', 'space', 'utf8', 'binary', 'printable']
SHORT = dict(control='c', esc='e', space='s', utf8='u', binary='i', printable='p')


def options(r, mode=None, **force):
    o = dict(mode=r.choice(['t', 'b', '']) if mode is None else mode, m=0, focus=[], ignore=[], color_markers=False, no_separators=False,
             no_line_numbers=False, w=None, decode=False, decimal_offsets=False, no_offsets=False, f=None, L=None, B=None, D=0, long=r.random() < .3)
    for c in CLASSES:
        k = r.random()
        if k < .14: o['focus'].append(c)
        elif k < .26: o['ignore'].append(c)
    if r.random() < .25:
        o['focus'], o['ignore'] = [], []
    o['m'] = r.choice([0, 0, 1, 1, 2, 2, 3])
    o['color_markers'] = r.random() < .3
    o['no_separators'] = r.random() < .25
    o['no_line_numbers'] = r.random() < .2
    o['decode'] = r.random() < .5
    k = r.random()
    if k < .2: o['decimal_offsets'] = True
    elif k < .35: o['no_offsets'] = True
    o['w'] = r.choice([None, None, 1, 2, 3, 4, 5, 7, 8, 16, 16, 20, 32, 64, 0])
    o.update(force)
    return o


def argv(o, source):
    a = []
    lg = o.get('long')
    if o['mode'] == 't': a.append('--text' if lg else '-t')
    if o['mode'] == 'b': a.append('--binary' if lg else '-b')
    if o['m']: a += [f'--marker={o["m"]}'] if lg else [f'-m{o["m"]}']
    for c in o['focus']: a.append(f'--focus-{c}' if lg else f'-{SHORT[c]}')
    for c in o['ignore']: a.append(f'--ignore-{c}' if lg else f'-{SHORT[c].upper()}')
    for k in ('color_markers', 'no_separators', 'no_line_numbers', 'decimal_offsets', 'no_offsets'):
        if o[k]: a.append('--' + k.replace('_', '-'))
    if o['decode']: a.append('--decode' if lg else '-d')
    for k, s, l in (('w', '-w', '--columns'), ('f', '-f', '--buffer'), ('L', '-L', '--max-lines'), ('B', '-B', '--max-bytes')):
        if o[k] is not None: a += [l, str(o[k])] if lg else [f'{s}{o[k]}']
    if o['D']: a += ['--debug'] * o['D'] if lg else ['-' + 'D' * o['D']]
    if source in ('file', 'fifo'): a.append('@F@')
    elif source == 'dash': a.append('-')
    return a


def is_binary(o): return o['mode'] == 'b'


# ------------------------------------------------------------------ schedules

def plan(r, n, kind='any', stalls=True):
    """A partition of n bytes into reads."""
    ev = []
    style = r.choice(['ones', 'few', 'mixed', 'big', 'none']) if kind == 'any' else kind
    left = n
    cap = 400
    while left > 0 and len(ev) < cap and style != 'none':
        if style == 'ones': k = 1
        elif style == 'few': k = r.randint(1, 4)
        elif style == 'mixed': k = r.choice([1, 2, 3, 5, 8, 13, 64, 100])
        else: k = r.randint(1, max(1, n // 2))
        k = min(k, left)
        if stalls and r.random() < .15:
            ev.append(['stall', r.choice([0.01, 1, 60, 3600])])
        ev.append(['d', k])
        left -= k
    return ev


def source(r):
    return r.choice(['file', 'file', 'fifo', 'stdin', 'dash'])


def spec(o, inp, src='file', pl=(), **kw):
    s = dict(argv=argv(o, src), input=inp, source='stdin' if src in ('stdin', 'dash') else src, plan=list(pl))
    s.update(kw)
    return s


def chunk_size(o):
    return o['f'] if o['f'] else (128 if o['D'] else 4096)
