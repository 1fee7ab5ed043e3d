"""Reference model: what a given byte string must look like.  Written from the
documentation (README, legend, help) as plain byte-by-byte code; it shares
nothing with the implementation."""
from .term import PLAIN, sgr

# ------------------------------------------------------------------ tokenizer


def utf8_len(d, i):
    """Length of the strictly valid multibyte UTF-8 sequence at d[i], else 0."""
    b = d[i]
    if 0xc2 <= b <= 0xdf: n = 2
    elif 0xe0 <= b <= 0xef: n = 3
    elif 0xf0 <= b <= 0xf4: n = 4
    else: return 0
    s = d[i:i + n]
    if len(s) < n or any(not 0x80 <= c <= 0xbf for c in s[1:]):
        return 0
    cp = b & (0x7f >> n)
    for c in s[1:]:
        cp = cp << 6 | c & 0x3f
    if cp < (0, 0, 0x80, 0x800, 0x10000)[n] or cp > 0x10ffff or 0xd800 <= cp <= 0xdfff:
        return 0
    return n


def esc_len(d, i):
    """(kind, length) of the escape sequence at d[i] == ESC, or ('esc', 1)."""
    n = len(d)
    j = i + 1
    if j >= n:
        return 'esc', 1
    b = d[j]
    if b == 0x5b:
        k = j + 1
        while k < n and 0x30 <= d[k] <= 0x3f: k += 1
        p_end = k
        while k < n and 0x20 <= d[k] <= 0x2f: k += 1
        if k < n and 0x40 <= d[k] <= 0x7e:
            params = bytes(d[j + 1:p_end])
            if d[k] == 0x6d and not any(c in b'<=>?' for c in params):
                return ('sgr0' if params in (b'', b'0') else 'sgr'), k + 1 - i
            return 'csi', k + 1 - i
        return 'fe', 2   # unfinished CSI: only the introducer is a sequence
    if 0x20 <= b <= 0x2f:
        k = j + 1
        while k < n and 0x20 <= d[k] <= 0x2f: k += 1
        if k < n and 0x30 <= d[k] <= 0x7e:
            return 'nf', k + 1 - i
        return 'esc', 1
    if 0x30 <= b <= 0x3f: return 'fp', 2
    if 0x40 <= b <= 0x5f: return 'fe', 2
    if 0x60 <= b <= 0x7e: return 'fs', 2
    return 'esc', 1


SINGLE = {0: 'nul', 8: 'bs', 9: 'tab', 10: 'lf', 11: 'vt', 12: 'ff', 13: 'cr', 32: 'sp', 127: 'del'}


def tokenize(d):
    """[(kind, bytes)]; single bytes are never merged."""
    out = []
    i, n = 0, len(d)
    while i < n:
        b = d[i]
        if b >= 0x80:
            k = utf8_len(d, i)
            if k:
                out.append(('utf8', d[i:i + k]))
                i += k
            else:
                out.append(('bin', d[i:i + 1]))
                i += 1
            continue
        if b == 0x1b:
            kind, k = esc_len(d, i)
            out.append((kind, d[i:i + k]))
            i += k
            continue
        out.append((SINGLE.get(b) or ('prn' if 0x21 <= b <= 0x7e else 'ctl'), d[i:i + 1]))
        i += 1
    return out


CLASS = dict(ctl='control', nul='control', bs='control', esc='control', tab='space', lf='space', vt='space', ff='space',
             cr='space', sp='space', csi='esc', sgr='esc', sgr0='esc', nf='esc', fp='esc', fe='esc', fs='esc',
             utf8='utf8', bin='binary', prn='printable')
CLASS['del'] = 'control'
ESC_KINDS = ('csi', 'sgr', 'sgr0', 'nf', 'fp', 'fe', 'fs')

# -------------------------------------------------------------------- styles

BASE = dict(ctl=(31,), nul=(91,), bs=(31,), esc=(93,), tab=(96,), lf=(96,), vt=(96,), ff=(96,), cr=(96,), sp=(96,),
            sgr0=(38, 5, 255, 48, 5, 16), sgr=(38, 5, 210, 48, 5, 16), csi=(92,), nf=(32,), fp=(33,), fe=(33,), fs=(33,),
            utf8=(94,), bin=(35,), prn=(38, 5, 102))
BASE['del'] = (31,)
FOCUS = dict(space=(46, 30), printable=(47, 30))
IGNORED = (90, 2)
DETAILS = (48, 5, 16, 4)
SEP = (38, 5, 255)
LABEL = dict(ctl='Ɐ', nul='Ø', bs='←', esc='∌', tab='⇥', lf='↵', vt='⤓', ff='↡', cr='⇤', sp='␣', sgr0='θ', sgr='ǝ', csi='Ͻ',
             nf='ꟻ', fp='ꟼ', fe='Ǝ', fs='Ꙅ', bin='Ḇ')
LABEL['del'] = '→'
CARET = {**{b: chr(b + 0x40) for b in list(range(1, 8)) + list(range(0x0e, 0x1b))}, 0x1c: '\\', 0x1d: ']', 0x1e: '^', 0x1f: '_'}
OWN = {2, 3, 9, 53, *range(30, 39), *range(40, 49), *range(90, 98), *range(100, 108)}

_st = {}


def style(*codes):
    v = _st.get(codes)
    if v is None:
        v = PLAIN if not codes else sgr(PLAIN, codes)
        if len(_st) < 20000:
            _st[codes] = v
    return v


def sgr_params(raw):
    """Numeric parameters of an SGR sequence (sub-parameters dropped, empty ones skipped)."""
    body = raw[2:-1].rstrip(bytes(range(0x20, 0x30))).decode()
    out = []
    for p in body.split(';'):
        if not p:
            continue
        p = p.split(':')[0].lstrip('0')
        out.append(int(p[:4000]) if p else 0)
    return out


def sgr_info(raw):
    """(own allowed codes, brief names)"""
    p = sgr_params(raw)
    own, names = [], []
    while p:
        c = p.pop(0)
        if c in (38, 48):
            t = 'F' if c == 38 else 'B'
            if len(p) >= 2 and p[0] == 5:
                own += [c, p[0], p[1]]
                names.append(f'{t}{p[1]}')
                p = p[2:]
                continue
            if len(p) >= 4 and p[0] == 2:
                own += [c, *p[:4]]
                names.append(f'{t}{p[1] * 65536 + p[2] * 256 + p[3]:06X}')
                p = p[4:]
                continue
            names.append(str(c))
            continue
        if c in OWN:
            own.append(c)
        names.append(str(c))
    return own, names


def token_style(kind, o):
    cls = CLASS[kind]
    if cls in o['ignore']:
        return style(*IGNORED)
    if cls in o['focus']:
        if cls in FOCUS:
            return style(*FOCUS[cls])
        return style(*BASE[kind], 7)
    return style(*BASE[kind])


def details_style(kind, raw, o):
    if kind == 'sgr':
        if o['color_markers']:
            return style(*DETAILS, *sgr_info(raw)[0])
        return style(*DETAILS)
    return style(*BASE[kind], *DETAILS)


def label_style(kind, raw, o):
    if kind == 'sgr' and o['color_markers']:
        own = sgr_info(raw)[0]
        return style(*own)
    return token_style(kind, o)


def safe_decode(raw):
    c = raw.decode('utf-8')
    return '▯' if '\x80' <= c <= '\x9f' else c


def text_cells(kind, raw, o):
    """Cells of one token in text mode (line feed: the marker only)."""
    cls = CLASS[kind]
    if cls in o['ignore']:
        s = style(*IGNORED)
        return [('×', s)] * len(raw)
    st = token_style(kind, o)
    m = min(max(o['m'], 0), 2)
    if kind == 'prn': return [(chr(raw[0]), st)]
    if kind == 'utf8': return [(safe_decode(raw), st)]
    if kind == 'sp': return [('·' if 'space' in o['focus'] else '␣', st)]
    if kind == 'tab': return [('⇥', st), ('\t', st)]
    if kind in ESC_KINDS:
        out = [(LABEL[kind], label_style(kind, raw, o))]
        if m >= 1:
            ds = details_style(kind, raw, o)
            if m == 2:
                out += [(chr(b), ds) for b in raw[1:]]
            elif kind == 'sgr':
                names = sgr_info(raw)[1]
                gap = (ds[0], ds[1], ds[2] - {'under'})
                for i, nm in enumerate(names):
                    if i:
                        out.append(('･', gap))
                    out += [(c, ds) for c in nm]
            if not o['no_separators']:
                ss = style(*SEP)
                out = [('⢸', ss)] + out + [('⡇', ss)]
        return out
    out = [(LABEL[kind], st)]
    if kind == 'ctl' and m >= 1:
        ds = details_style(kind, raw, o)
        out += [(c, ds) for c in (CARET[raw[0]] if m == 1 else f'{raw[0]:02x}')]
    return out


def binary_cells(kind, raw, o):
    """One cell per byte."""
    cls = CLASS[kind]
    n = len(raw)
    if cls in o['ignore']:
        return [('×', style(*IGNORED))] * n
    st = token_style(kind, o)
    if kind == 'prn': return [(chr(raw[0]), st)]
    if kind == 'sp': return [('·' if 'space' in o['focus'] else '␣', st)]
    if kind == 'utf8':
        if o['decode']:
            return [('_', st)] * (n - 1) + [(safe_decode(raw), st)]
        return [('▯', st)] * n
    if kind == 'bin': return [('▯', st)]
    if kind in ESC_KINDS:
        ds = details_style(kind, raw, o)
        return [(LABEL[kind], label_style(kind, raw, o))] + [(chr(b), ds) for b in raw[1:]]
    return [(LABEL[kind], st)]


def text_lines(data, o):
    """[cells] per line, without numbers."""
    lines, cur, any_ = [], [], False
    for kind, raw in tokenize(data):
        cur += text_cells(kind, raw, o)
        any_ = True
        if kind == 'lf':
            lines.append(cur)
            cur, any_ = [], False
    if any_:
        lines.append(cur)
    return lines


def binary_dump(data, o):
    """[(byte, char, style)] per byte"""
    out = []
    for kind, raw in tokenize(data):
        for b, (c, s) in zip(raw, binary_cells(kind, raw, o), strict=True):
            out.append((b, c, s))
    return out


def limited(data, o):
    """Part of the input which is shown with the limits in o."""
    end = len(data)
    if o.get('B') and o['B'] > 0:
        end = min(end, o['B'])
    if o.get('L') and o['L'] > 0:
        pos = -1
        for _ in range(o['L']):
            pos = data.find(b'\n', pos + 1)
            if pos < 0:
                break
        if pos >= 0:
            end = min(end, pos)
    return data[:end]


def offset_str(off, o):
    if o.get('decimal_offsets'):
        return str(off)
    return f'0x{off:x}'
