"""A strict terminal: turns application output into styled cells and notes
everything a well-behaved output must not contain."""
import re

# style: (fg, bg, attrs)   fg/bg: '' | '31' | '5:n' | '2:r:g:b'; attrs: frozenset of names
PLAIN = ('', '', frozenset())
ATTR_ON = {1: 'bold', 2: 'dim', 3: 'italic', 4: 'under', 21: 'dunder', 5: 'blink', 6: 'blink', 7: 'inv', 8: 'hid', 9: 'cross', 53: 'over'}
ATTR_OFF = {22: ('bold', 'dim'), 23: ('italic',), 24: ('under', 'dunder'), 25: ('blink',), 27: ('inv',), 28: ('hid',), 29: ('cross',), 55: ('over',)}


def sgr(style, params):
    """Effect of an SGR sequence with the given numeric parameters."""
    fg, bg, attrs = style
    p = list(params) or [0]
    i = 0
    while i < len(p):
        c = p[i]
        i += 1
        if c == 0:
            fg, bg, attrs = '', '', frozenset()
        elif c in ATTR_ON:
            attrs = attrs | {ATTR_ON[c]}
        elif c in ATTR_OFF:
            attrs = attrs - set(ATTR_OFF[c])
        elif 30 <= c <= 37 or 90 <= c <= 97:
            fg = str(c)
        elif 40 <= c <= 47 or 100 <= c <= 107:
            bg = str(c)
        elif c == 39:
            fg = ''
        elif c == 49:
            bg = ''
        elif c in (38, 48):
            if p[i:i + 1] == [5] and len(p) >= i + 2:
                v = f'5:{p[i + 1]}'
                i += 2
            elif p[i:i + 1] == [2] and len(p) >= i + 4:
                v = '2:%d:%d:%d' % tuple(p[i + 1:i + 4])
                i += 4
            else:
                break
            if c == 38:
                fg = v
            else:
                bg = v
    return fg, bg, attrs


SEQ = re.compile('\x1b\\[([0-9;]*)m')
SPECIAL = re.compile('[\x00-\x1f\x7f-\x9f]')
_cache = {}


class Line:
    """cells: list of (char, style); end: style at the line feed, or None if there was none"""
    __slots__ = ('chars', 'styles', 'end', 'raw', 'leak')

    def __init__(self):
        self.chars, self.styles, self.end, self.raw, self.leak = [], [], None, '', None

    @property
    def text(self): return ''.join(self.chars)

    def __len__(self): return len(self.chars)

    def key(self): return ''.join(self.chars), tuple(self.styles)

    def __repr__(self): return f'Line({self.text!r})'


class Screen:
    def __init__(self, text):
        self.lines = []
        self.bad = []       # (line index, description)
        self.final = PLAIN
        self._parse(text)

    @staticmethod
    def _sgr(style, params):
        k = (style, params)
        v = _cache.get(k)
        if v is None:
            if len(_cache) > 50000:
                _cache.clear()
            v = _cache[k] = sgr(style, [int(x[-4000:] or 0) for x in params.split(';')])
        return v

    def _parse(self, text):
        cur = Line()
        style = PLAIN
        fresh = PLAIN       # style if the line had been started with default attributes
        pos, n = 0, len(text)
        start = 0
        while pos < n:
            m = SPECIAL.search(text, pos)
            end = m.start() if m else n
            if end > pos:
                if not cur.chars and style != fresh:
                    cur.leak = (style, fresh)
                cur.chars.extend(text[pos:end])
                cur.styles.extend([style] * (end - pos))
            if not m:
                pos = n
                break
            ch = m.group()
            pos = end + 1
            if ch == '\n':
                cur.end = style
                cur.raw = text[start:pos]
                start = pos
                self.lines.append(cur)
                cur = Line()
                fresh = PLAIN
            elif ch == '\x1b':
                s = SEQ.match(text, end)
                if s:
                    style, fresh = self._sgr(style, s.group(1)), self._sgr(fresh, s.group(1))
                    pos = s.end()
                else:
                    self.bad.append((len(self.lines), f'escape {text[end:end + 8]!r}'))
                    cur.chars.append(ch)
                    cur.styles.append(style)
            elif ch == '\t':
                if not (cur.chars and cur.chars[-1] == '\u21e5'):
                    self.bad.append((len(self.lines), 'tab without its marker'))
                cur.chars.append(ch)
                cur.styles.append(style)
            else:
                self.bad.append((len(self.lines), f'control char {ch!r}'))
                cur.chars.append(ch)
                cur.styles.append(style)
        self.final = style
        self.rest = None
        if cur.chars or start < n:
            cur.raw = text[start:]
            if cur.chars:
                self.rest = cur
                self.lines.append(cur)


def strip(text):
    return SEQ.sub('', text)
