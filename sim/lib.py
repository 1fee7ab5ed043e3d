"""The simulated clients of the library (pytermor): serial steps, groups of
threads whose interleaving is decided line by line by a schedule, exceptions
injected inside of operations, and a simulated terminal driver (termios).

spec of run_lib():
  pools   {'styles': [...], 'texts': [[run, ...], ...]}   objects made at the start
  ndev    number of output devices (initially none is a terminal)
  steps   [['op', op, inject | null] | ['par', [[op, ...], ...], turns]]
turns = [[client, lines], ...]: client runs for that many executed source lines
of the library, then the next entry applies; afterwards clients run in order."""
import errno
import os
import sys
import threading
from contextlib import contextmanager

from . import world
from .world import PREFIXES, HarnessError, SimStop, in_child

ATTRS = ('blink', 'bold', 'crosslined', 'dim', 'double_underlined', 'inversed', 'italic', 'overlined', 'underlined')


# ---------------------------------------------------------- thread scheduling

class Baton:
    """Exactly one client thread runs at any time."""

    def __init__(self, n, turns):
        self.n, self.turns = n, [list(t) for t in turns]
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.done = [False] * n
        self.left = 0
        self.cur = None
        self.switches = 0
        self.trace = []

    def pick(self):
        while self.turns:
            c, k = self.turns.pop(0)
            if not self.done[c % self.n] and k > 0:
                self.left = k
                return c % self.n
        for c in range(self.n):
            if not self.done[c]:
                self.left = 1 << 60
                return c
        return None

    def hand_over(self, me, nxt):
        if nxt != me:
            self.switches += 1
            self.cur = nxt
            self.trace.append(nxt)
            self.sems[nxt].release()
            self.sems[me].acquire()

    def local(self, frame, event, arg):
        if event == 'line':
            self.left -= 1
            if self.left <= 0:
                self.hand_over(self.cur, self.pick())
        return self.local

    def glob(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(PREFIXES) else None

    def blocked(self):
        """The current client waits for a lock held by another one."""
        me = self.cur
        alive = [c for c in range(self.n) if not self.done[c] and c != me]
        if not alive:
            raise SimStop('deadlock')
        self.left = 50
        self.hand_over(me, alive[0] if alive[0] > me or alive[-1] < me else next(c for c in alive if c > me))

    def body(self, me, fn):
        self.sems[me].acquire()
        sys.settrace(self.glob)
        try:
            fn()
        finally:
            sys.settrace(None)
            self.done[me] = True
            nxt = self.pick()
            if nxt is None:
                self.main.release()
            else:
                self.cur = nxt
                self.trace.append(nxt)
                self.sems[nxt].release()

    def run(self, fns):
        global _baton
        _baton = self
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        self.cur = self.pick()
        self.trace.append(self.cur)
        self.sems[self.cur].release()
        self.main.acquire()
        for t in ts:
            t.join()
        _baton = None


_baton = None


class Missing(Exception):
    pass


class Objects(dict):
    """Objects of the clients by name.  A scenario must not use what has not been made."""

    def __missing__(self, k):
        raise Missing(k)


def raw(x):
    """A text can be made of any object: ['v', object]."""
    return x[1] if isinstance(x, list) else x


@contextmanager
def undisturbed():
    """No turn ends and nothing is injected while the harness itself uses the library."""
    trace = sys.gettrace()
    sys.settrace(None)
    try:
        yield
    finally:
        sys.settrace(trace)


class SimLock:
    """Lock made by the code under test: waiting gives the turn to another client."""

    def __init__(self, real):
        self._r = real

    def acquire(self, blocking=True, timeout=-1):
        if _baton is None or not blocking:
            return self._r.acquire(blocking, timeout)
        while not self._r.acquire(False):
            _baton.blocked()
        return True

    def release(self): self._r.release()
    def locked(self): return self._r.locked()
    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.release()


# ------------------------------------------------------------------- executor

class Dev:
    """Output device: a terminal or not."""

    def __init__(self, log):
        self.tty, self.data = False, []

    def isatty(self): return self.tty
    def write(self, s):
        self.data.append(s)
        return len(s)
    def flush(self): pass
    def fileno(self): return 1
    encoding = 'utf-8'
    closed = False


class Injector:
    def __init__(self, at, exc):
        self.at, self.exc, self.n, self.hit = at, exc, 0, None

    def glob(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(PREFIXES) else None

    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n == self.at:
                self.hit = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}'
                raise KeyboardInterrupt if self.exc == 'ki' else MemoryError
        return self.local


class Client:
    """Executes operations of the scenario against the real library."""

    def __init__(self, spec):
        import pytermor
        from pytermor import color, render
        self.p, self.c, self.r = pytermor, color, render
        self.log, self.fires = [], {}
        self.clock = 0.0
        self.devs = [Dev(self.log) for _ in range(spec.get('ndev', 1))]
        sys.stdout = self.devs[0]
        isatty = os.isatty
        os.isatty = lambda fd: sys.stdout.isatty() if fd == 1 and isinstance(sys.stdout, Dev) else isatty(fd)
        self.by_code, self.by_256 = {}, {}
        for v in vars(color.Colors).values():
            if isinstance(v, color.ColorIndexed256):
                self.by_code.setdefault(v.to_sgr().params[-1], v)
                self.by_256[v.to_sgr().params[-1]] = v
            elif isinstance(v, color.ColorIndexed16):
                self.by_code.setdefault(v.to_sgr().params[0], v)
        self.styles = [self.style(s) for s in spec.get('styles', ())]
        self.texts, self.seqs, self.spans, self.sts, self.fls, self.nfs = (Objects() for _ in range(6))
        self.tfs = Objects((f'p{n}', self.tf_reg().get_by_max_len(n)) for n in (3, 4, 6, 10))
        self.lists = Objects()
        self.mine, self.base = {}, None      # see default()
        self.renderers = dict(sgr=render.SgrRenderer, noop=render.NoOpRenderer, debug=render.DebugRenderer,
                              html=render.HtmlRenderer, tmux=render.TmuxRenderer)

    def fired(self, k):
        self.fires[k] = self.fires.get(k, 0) + 1

    def color(self, s):
        if s is None:
            return None
        kind, v = s
        if kind == 'rgb':
            return self.c.ColorRGB(v)
        if kind == 'int':
            return v
        if kind == 'code':      # indexed colour of either palette
            return self.by_code[v]
        if kind == 'c256':
            return self.by_256[v]
        raise HarnessError(s)

    def style(self, s):
        kw = {a: True for a in s.get('a', ())}
        inherit = self.style(s['inherit']) if s.get('inherit') else None
        return self.r.Style(inherit, fg=self.color(s.get('fg')), bg=self.color(s.get('bg')), **kw)

    def sty(self, i):
        return i if i is None or isinstance(i, str) else self.styles[i]

    def mk(self, runs):
        T = self.r.Text
        if not runs: raise Missing('a text without runs')
        t = T(raw(runs[0][0]), self.sty(runs[0][1]))
        for s, st in runs[1:]:
            t.append(T(raw(s), self.sty(st)) if st is not None else s)
        return t

    # each operation returns something JSON-able
    def op(self, o):
        return getattr(self, 'op_' + o[0])(*o[1:])

    def op_cfg(self, force, c256, c16): self.r.SgrRenderer.set_up(force, c256, c16)
    def op_cfgdef(self): self.r.SgrRenderer.set_up()
    def op_mgr(self, name): self.r.RendererManager.set_up(None if name is None else self.renderers[name])
    def op_tty(self, dev, on): self.devs[dev].tty = on
    def op_redir(self, dev): sys.stdout = self.devs[dev]
    def op_mk(self, tid, runs): self.texts[tid] = self.mk(runs)
    def op_allowed(self): return self.r.SgrRenderer.is_sgr_usage_allowed()

    def op_r(self, how, s, text):
        st, text = self.sty(s), raw(text)
        if how == 'class': return self.r.SgrRenderer.render(text, st)
        if how == 'style': return st.render(text)
        if how == 'styletext': return str(st.text(text))
        if how == 'text': return self.r.Text(text, st).render()
        if how == 'str': return str(self.r.Text(text, st))
        if how == 'fmt': return f'{self.r.Text(text, st)}'
        if how == 'print':
            d = sys.stdout
            n = len(d.data)
            print(self.r.Text(text, st), end='')
            return ''.join(d.data[n:])
        return self.renderers[how].render(text, st)

    def op_rt(self, tid, how):
        t = self.texts[tid]
        if how == 'str': return str(t)
        if how == 'render': return t.render()
        if how == 'len': return len(t)
        if how == 'raw': return t.raw()
        if how == 'print':
            d = sys.stdout
            n = len(d.data)
            print(t, end='')
            return ''.join(d.data[n:])
        with self.default(how):
            return t.render()

    @contextmanager
    def default(self, how):
        """Make the renderer the default one for the current client only."""
        m = self.r.RendererManager
        lib = self

        class Dispatch(self.r.IRenderer):
            @classmethod
            def render(cls, text, style):
                return lib.pick().render(text, style)

        with undisturbed():
            if not lib.mine:
                lib.base = m.get_default()
                m.set_up(Dispatch)
            lib.mine[threading.get_ident()] = self.renderers[how]
        try:
            yield
        finally:
            with undisturbed():
                del lib.mine[threading.get_ident()]
                if not lib.mine:
                    m.set_up(lib.base)

    def pick(self):
        return self.mine.get(threading.get_ident()) or self.base

    def op_fmt(self, tid, spec): return format(self.texts[tid], spec)
    def op_pct(self, tid): return '%s' % (self.texts[tid],)
    def op_fstr(self, tid, w): return f'{self.texts[tid]:{w}}'

    def arg(self, x):
        return x[1] if x[0] == 's' else self.texts[x[1]]

    def op_append(self, tid, x): self.texts[tid].append(self.arg(x))
    def op_prepend(self, tid, x): self.texts[tid].prepend(self.arg(x))
    def op_add(self, tid, x, to): self.texts[to] = self.texts[tid] + self.arg(x)
    def op_iadd(self, tid, x):
        t = self.texts[tid]
        t += self.arg(x)
        self.texts[tid] = t
    def op_radd(self, s, tid, to): self.texts[to] = s + self.texts[tid]
    def op_dup(self, tid, to): self.texts[to] = self.texts[tid]

    def op_bad(self, tid, how, x):
        t = self.texts[tid]
        if how == 'append': t.append(x)
        elif how == 'prepend': t.prepend(x)
        elif how == 'add': t + x
        elif how == 'radd': x + t
        elif how == 'iadd': t += x

    def info(self, c):
        return [c.hex_value, list(c.to_sgr().params), list(c.to_sgr(bg=True).params)]

    def cls(self, pal): return self.c.ColorIndexed16 if pal == 16 else self.c.ColorIndexed256

    def op_q(self, pal, h): return self.info(self.cls(pal).find_closest(h))

    def op_apx(self, pal, h, n):
        a = next(v for v in vars(self.cls(pal)).values() if hasattr(v, 'approximate'))
        return [self.info(c) for c in a.approximate(h, n)]

    def op_reg(self, pal, h, code):
        if pal == 16:
            self.c.ColorIndexed16(h, code, code + 10)
        else:
            self.c.ColorIndexed256(h, code)

    def op_badq(self, pal, v): self.cls(pal).find_closest(v)

    # sequences and spans
    def seq_args(self, args):
        return [self.seqs[a[1]] if isinstance(a, list) else a for a in args]

    def preset(self, reg, name):
        from pytermor import ansi
        if name is None:
            return ansi.NOOP_SEQ if reg == 'Seqs' else ansi.NOOP_SPAN
        return getattr(getattr(ansi, reg), name)

    def op_sq_new(self, k, args): self.seqs[k] = self.p.SequenceSGR(*self.seq_args(args))
    def op_sq_add(self, a, b, k): self.seqs[k] = self.seqs[a] + self.seqs[b]
    def op_sq_iadd(self, a, b):
        x = self.seqs[a]
        x += self.seqs[b]
        self.seqs[a] = x
    def op_sq_sum(self, names, k): self.seqs[k] = sum((self.seqs[n] for n in names), self.p.NOOP_SEQ)
    def op_sq_dup(self, a, k): self.seqs[k] = self.seqs[a]
    def op_sq_pre(self, k, name): self.seqs[k] = self.preset('Seqs', name)
    def op_sq_ext(self, k, vals, bg):
        f = self.p.SequenceSGR.init_color_indexed if len(vals) == 1 else self.p.SequenceSGR.init_color_rgb
        self.seqs[k] = f(*vals, bg=bg)
    def op_sq_get(self, k):
        q = self.seqs[k]
        return [q.assemble(), list(q.params), str(q), repr(q)]
    def op_sq_eq(self, a, b):
        a, b = self.seqs[a], self.seqs[b]
        return [a == b, hash(a) == hash(b), len({a: 1, b: 2})]
    def op_sq_bad(self, how, k):
        S = self.p.SequenceSGR
        if how == 'type': S(self.seqs[k], 1.5)
        elif how == 'name': S(self.seqs[k], 'NO_SUCH_CODE')
        elif how == 'add': self.seqs[k] + 'x'
        elif how == 'iadd':
            x = self.seqs[k]
            x += 1
        elif how == 'idx': S.init_color_indexed(256)
        elif how == 'rgb': S.init_color_rgb(0, -1, 0)

    def op_sp_new(self, k, args): self.spans[k] = self.p.Span(*self.seq_args(args))
    def op_sp_exp(self, k, a, b, hard):
        self.spans[k] = self.p.Span.init_explicit(None if a is None else self.seqs[a], None if b is None else self.seqs[b], hard)
    def op_sp_pre(self, k, name): self.spans[k] = self.preset('Spans', name)
    def op_sp_wrap(self, k, text, how):
        sp = self.spans[k]
        if how == 'call': return sp(text)
        if how == 'wrap': return sp.wrap(text)
        return sp.opening_str + ('' if text is None else str(text)) + sp.closing_str
    def op_sp_get(self, k):
        sp = self.spans[k]
        return [list(sp.opening_seq.params), list(sp.closing_seq.params)]
    def op_sp_eq(self, a, b): return [self.spans[a] == self.spans[b]]
    def op_ne_eq(self, kind, k, x):
        v = self.seqs[k] if kind == 'sq' else self.spans[k]
        x = {'seq': self.p.SequenceSGR, 'span': self.p.Span}[x](31) if x in ('seq', 'span') else x
        return [v == x, v != x]
    def op_sp_seq(self, sp, which, k): self.seqs[k] = getattr(self.spans[sp], which + '_seq')

    def op_rg(self, reg, name):
        """A preset looked up by its name."""
        from pytermor import ansi, color
        v = {'IntCodes': ansi.IntCodes, 'Seqs': ansi.Seqs, 'Spans': ansi.Spans, 'Colors': color.Colors, 'Styles': self.r.Styles}[reg].resolve(name)
        if isinstance(v, int): return v
        if isinstance(v, ansi.SequenceSGR): return list(v.params)
        if isinstance(v, ansi.Span): return [list(v.opening_seq.params), list(v.closing_seq.params)]
        if isinstance(v, color.Color): return self.co_info(v)
        if isinstance(v, self.r.Style): return self.st_info(v)
        return repr(v)

    # layouts and colour conversions
    def op_ls(self, k, values): self.lists[k] = list(values)
    def op_pad(self, k, n, before, after, form):
        f, v = self.r.distribute_padded, self.lists[k]
        r = f(v, n, before, after) if form == 'pos' else f(v, max_len=n, pad_before=before, pad_after=after) if form == 'kw' else f(v, n, **{a: True for a, on in (('pad_before', before), ('pad_after', after)) if on})
        return [r, list(v)]
    def op_lsget(self, k): return list(self.lists[k])
    def op_lsadd(self, k, x): self.lists[k].append(x)
    def op_conv(self, what, v):
        C = self.c.Color
        if what == 'hex': return C.rgb_channels_to_hex_value(*v)
        return list(C.hex_value_to_rgb_channels(v) if what == 'rgb' else C.hex_value_to_hsv_channels(v))
    def op_colr(self, s, how, *a):
        c = self.color(s)
        if how == 'sgr': return [list(c.to_sgr().params), list(c.to_sgr(bg=True).params), list(c.to_sgr(False).params)]
        if how == 'eq':
            o = self.color(a[0])
            return [c == o, o == c, c == c, c == 'x']
        return [c.format_value(*a), c.hex_value]
    def op_apxcut(self, pal, h, n, how='clear'):
        """A client spoils the list of answers which it was given."""
        a = next(v for v in vars(self.cls(pal)).values() if hasattr(v, 'approximate'))
        x = a.approximate(h, n)
        r = [self.info(c) for c in x]
        if how == 'reverse': x.reverse()
        elif how == 'last': x[:-1] = x[-1:] * (len(x) - 1)
        elif how == 'pop': x.pop(0)
        elif how == 'dup': x.insert(0, x[-1])
        else: x.clear()
        return r

    def op_presets(self):
        """All the shared presets as they are now."""
        from pytermor import ansi
        r = {}
        for reg in ('Seqs', 'Spans'):
            for n, v in vars(getattr(ansi, reg)).items():
                if isinstance(v, ansi.SequenceSGR): r[f'{reg}.{n}'] = list(v.params)
                elif isinstance(v, ansi.Span): r[f'{reg}.{n}'] = [list(v.opening_seq.params), list(v.closing_seq.params)]
        r['NOOP_SEQ'] = list(ansi.NOOP_SEQ.params)
        r['NOOP_SPAN'] = [list(ansi.NOOP_SPAN.opening_seq.params), list(ansi.NOOP_SPAN.closing_seq.params)]
        for n, v in vars(self.r.Styles).items():
            if isinstance(v, self.r.Style): r[f'Styles.{n}'] = self.st_info(v)
        r['NOOP_STYLE'] = self.st_info(self.r.NOOP_STYLE)
        return r

    # styles
    def st_info(self, st):
        return [self.co_info(st.fg), self.co_info(st.bg), sorted(a for a in ATTRS if getattr(st, a)), st.class_name]

    def co_info(self, c):
        return None if c.hex_value is None else [c.hex_value, list(c.to_sgr().params), list(c.to_sgr(bg=True).params)]

    def color2(self, s):
        return s[1] if s is not None and s[0] == 'name' else self.color(s)

    def op_st_new(self, k, inherit, fg, bg, attrs, cls):
        self.sts[k] = self.r.Style(None if inherit is None else self.sts[inherit], fg=self.color2(fg), bg=self.color2(bg), class_name=cls, **attrs)
    def op_st_pre(self, k, name): self.sts[k] = getattr(self.r.Styles, name) if name else self.r.NOOP_STYLE
    def op_st_dup(self, a, k): self.sts[k] = self.sts[a]
    def op_st_col(self, k, which, c): setattr(self.sts[k], which, self.color2(c))
    def op_st_attr(self, k, name, v): setattr(self.sts[k], name, v)
    def op_st_flip(self, k): return self.sts[k].flip() is self.sts[k]
    def op_st_auto(self, k): return self.sts[k].autopick_fg() is self.sts[k]
    def op_st_get(self, k): return self.st_info(self.sts[k])
    def op_st_bad(self, k, which):
        if which == 'init': self.r.Style(self.sts[k], fg='no such colour')
        else: setattr(self.sts[k], which, 'no such colour')
    def op_st_r(self, k, how, text): return self.renderers[how].render(text, self.sts[k])
    def op_st_text(self, k, how, parts):
        """A text of several parts, every other one with the style."""
        T = self.r.Text
        t = T(parts[0], self.sts[k])
        for i, x in enumerate(parts[1:]): t.append(T(x, self.sts[k]) if i % 2 else x)
        with self.default(how):
            return t.render()

    # time interval formatters
    def op_tf_new(self, k, units, neg, sep, plural, msg):
        from pytermor.util import time_delta as td
        self.tfs[k] = td.TimeDeltaFormatter([td.TimeUnit(n, in_next=nx, custom_short=sh, collapsible_after=co, overflow_afer=ov) for n, nx, sh, co, ov in units], neg, sep, plural, msg)
        return self.tfs[k].max_len

    def tf_reg(self):
        from pytermor.util import time_delta as td
        return td.registry

    def tf_which(self, f):
        return None if f is None else next((k for k, v in self.tfs.items() if v is f), 'preset')

    def op_tf_reg(self, ks): self.tf_reg().register(*(self.tfs[k] for k in ks))
    def op_tf_find(self, n): return self.tf_which(self.tf_reg().find_matching(n))
    def op_tf_exact(self, n): return self.tf_which(self.tf_reg().get_by_max_len(n))
    def op_tf_ends(self): return [self.tf_which(self.tf_reg().get_shortest()), self.tf_which(self.tf_reg().get_longest())]
    def op_tf_use(self, k, s, pad): return self.tfs[k].format(s, pad)
    def op_tf_raw(self, k, s): return self.tfs[k].format_raw(s)
    def op_tf_any(self, s, n):
        from pytermor.util import format_time_delta
        return format_time_delta(s) if n is None else format_time_delta(s, n)
    def op_tf_presets(self):
        return [n for n in range(20) if self.tf_reg().get_by_max_len(n) is not None]

    # string filters
    @property
    def u(self):
        from pytermor import util
        return util

    @staticmethod
    def thaw(x):
        if not isinstance(x, list): return x
        if x[0] == 'b': return bytes.fromhex(x[1])
        if x[0] == 'rx':
            import re
            return re.compile(Client.thaw(x[1]))

        def fn(m):
            t = m.group(0)
            if x[1] == 'fail' and len(t) == 1 and t in 'Xx': raise LookupError(t)
            return t.upper() if x[1] == 'upper' else t + t if x[1] == 'twice' else f'<{len(t)}>'
        return fn

    def freeze(self, x): return ['b', x.hex()] if isinstance(x, bytes) else x
    def op_fl_new(self, k, cls, args): self.fls[k] = getattr(self.u, cls)(*map(self.thaw, args))

    def op_fl_use(self, ks, s, how):
        s = self.thaw(s)
        if how == 'pipe': return self.freeze(self.u.apply_filters(s, *(getattr(self.u, k) if isinstance(k, str) else self.fls[k] for k in ks)))
        for k in ks:
            f = getattr(self.u, k)() if isinstance(k, str) else self.fls[k]
            s = f(s) if how == 'call' else f.apply(s)
        return self.freeze(s)

    def op_fl_pad(self, how, s, w, fill):
        f = getattr(self.u, how + '_sgr')
        return f(s, w) if fill is None else f(s, w, fill)

    # numbers
    def op_nf_af(self, v, n, exp): return self.u.format_auto_float(v, n) if exp is None else self.u.format_auto_float(v, n, exp)
    def op_nf_new(self, k, kw):
        self.nfs[k] = self.u.PrefixedUnitFormatter(**kw)
        return self.nfs[k].max_len
    def op_nf_use(self, k, v, unit):
        f = self.u.format_si_metric if k == 'metric' else self.u.format_si_binary if k == 'binary' else self.nfs[k].format
        return f(v) if unit is None else f(v, unit)
    def op_nf_sep(self, v, sep): return self.u.format_thousand_sep(v) if sep is None else self.u.format_thousand_sep(v, sep)

    def safe(self, o):
        try:
            return ['ok', self.op(o)]
        except (SimStop, HarnessError):
            raise
        except BaseException as e:
            return ['exc', type(e).__name__, str(e)[:200]]


def _run(spec):
    import logging
    logging.raiseExceptions = False
    logging.disable(logging.CRITICAL)
    c = Client(spec)
    results = []
    stop = None
    switches = 0
    try:
        for step in spec['steps']:
            c.clock += 0.001
            if step[0] == 'op':
                inj = step[2] if len(step) > 2 else None
                if inj:
                    t = Injector(*inj)
                    sys.settrace(t.glob)
                    try:
                        try:
                            r = ['ok', c.op(step[1])]
                        finally:
                            sys.settrace(None)
                    except (SimStop, HarnessError):
                        raise
                    except BaseException as e:
                        r = ['exc', type(e).__name__, str(e)[:200]]
                    if t.hit:
                        c.fired('inject:' + inj[1])
                        r.append(['injected', t.hit])
                else:
                    r = c.safe(step[1])
                results.append(r)
                c.log.append((len(results), step[1][0], r))
            else:
                out = [[] for _ in step[1]]

                def worker(i):
                    def f():
                        for o in step[1][i]:
                            out[i].append(c.safe(o))
                    return f
                b = Baton(len(step[1]), step[2])
                b.run([worker(i) for i in range(len(step[1]))])
                switches += b.switches
                if b.switches:
                    c.fires['thread switch'] = c.fires.get('thread switch', 0) + b.switches
                results.append(out)
                c.log.append((len(results), 'par', tuple(b.trace), [[r for r in x] for x in out]))
    except SimStop as e:
        stop = str(e)
    return dict(status=0, stop=stop, results=results, log=c.log, fires=c.fires, clock=c.clock, out=b'', err=b'', switches=switches)


def run_lib(spec):
    return in_child(_run, spec, cpu=60)


# ------------------------------------------------------- simulated tty driver

ICANON, ECHO, ISIG, ECHONL, TOSTOP = 0o2, 0o10, 0o1, 0o100, 0o400


class TermiosError(Exception):
    pass


class FakeTty:
    """A terminal line discipline reduced to what wait_key() depends on."""

    def __init__(self, spec):
        self.attrs = [list(x) if isinstance(x, list) else x for x in spec['attrs']]
        self.queue = bytearray()      # typed, not yet read by anybody
        self.delivered = bytearray()  # read by the process
        self.faults = []
        self.log, self.fires = [], {}
        self.clock = 0.0
        self.modes = []               # attributes in force while blocked in read
        self.events = []
        self.eof = False

    def fired(self, k):
        self.fires[k] = self.fires.get(k, 0) + 1
        if k != 'typed ahead': self.hit = True

    def ev(self, *e): self.log.append((len(self.log) + 1,) + e)

    def fault(self, call):
        """Faults are listed by (call name, occurrence in this wait)."""
        self.counts[call] = self.counts.get(call, 0) + 1
        for f in self.faults:
            if f[0] == call and f[1] == self.counts[call]:
                return f[2]

    def snapshot(self):
        return [list(x) if isinstance(x, list) else x for x in self.attrs]

    # -- termios
    def tcgetattr(self, fd):
        f = self.fault('tcgetattr')
        self.ev('tcgetattr', f)
        if f in ('err', 'notty'):
            self.fired('tcgetattr:error')
            raise self.mod.error(errno.ENOTTY if f == 'notty' else errno.EIO, 'tcgetattr')
        r = self.snapshot()
        if f == 'ki':
            self.fired('interrupt after tcgetattr')
            raise KeyboardInterrupt
        return r

    def tcsetattr(self, fd, when, attrs):
        f = self.fault('tcsetattr')
        self.ev('tcsetattr', when, list(attrs[:4]), f)
        if f == 'err':
            self.fired('tcsetattr:error')
            raise self.mod.error(errno.EIO, 'tcsetattr')
        self.attrs = [list(x) if isinstance(x, list) else x for x in attrs]
        if when == self.mod.TCSAFLUSH:
            self.queue.clear()
        self.set_since.append(self.snapshot())
        if f == 'ki':
            self.fired('interrupt after tcsetattr')
            raise KeyboardInterrupt

    def tcflush(self, fd, q):
        self.ev('tcflush', q)
        if q in (self.mod.TCIFLUSH, self.mod.TCIOFLUSH):
            self.queue.clear()

    # -- the read side
    def read(self, n):
        f = self.fault('read')
        self.ev('read', f)
        while True:
            if self.attrs[3] & ICANON:
                i = max(self.queue.find(b'\n'), self.queue.find(b'\r'))
                ready = i + 1 if i >= 0 else 0
            else:
                ready = len(self.queue)
            if ready:
                break
            if f == 'ki':
                self.modes.append(self.snapshot())
                self.fired('interrupt in read')
                raise KeyboardInterrupt
            if f == 'err':
                self.modes.append(self.snapshot())
                self.fired('read:error')
                raise OSError(errno.EIO, 'read')
            if f == 'eof':
                self.modes.append(self.snapshot())
                self.fired('read:hangup')
                return b''
            self.modes.append(self.snapshot())
            if not self.events:
                raise SimStop('blocked forever waiting for a key')
            t, b = self.events.pop(0)
            self.clock += t
            self.queue += bytes.fromhex(b)
        k = min(n, ready)
        r = bytes(self.queue[:k])
        del self.queue[:k]
        self.delivered += r
        # more input may be typed before the process gets to restore the terminal
        while self.events and self.events[0][0] == 0:
            self.queue += bytes.fromhex(self.events.pop(0)[1])
            self.fired('typed ahead')
        if f == 'kiafter':
            self.fired('interrupt after read')
            raise KeyboardInterrupt
        return r


def _wait(spec):
    import io
    import termios as real
    import types
    import pytermor.common as pc
    tty = FakeTty(spec)
    mod = types.ModuleType('termios')
    for k in dir(real):
        if k[:1].isupper():
            setattr(mod, k, getattr(real, k))

    class error(Exception):
        pass
    mod.error = error
    mod.tcgetattr = lambda fd: tty.tcgetattr(fd)
    mod.tcsetattr = lambda fd, when, attrs: tty.tcsetattr(fd, when, attrs)
    mod.tcflush = lambda fd, q: tty.tcflush(fd, q)
    mod.tcdrain = lambda fd: None
    tty.mod = mod
    sys.modules['termios'] = mod
    sys.modules.pop('tty', None)
    pc.termios = mod if hasattr(pc, 'termios') else None
    if pc.termios is None:
        del pc.termios

    class Raw(io.RawIOBase):
        name, mode = '<stdin>', 'rb'
        def readable(self): return True
        def fileno(self): return 0
        def isatty(self): return True
        def readinto(self, b):
            r = tty.read(len(b))
            b[:len(r)] = r
            return len(r)

    class In(io.TextIOWrapper):
        def fileno(self):
            if tty.fault('fileno') == 'ki':
                tty.fired('interrupt before the call')
                raise KeyboardInterrupt
            return 0
    real_osread = os.read

    def os_read(fd, n):
        return tty.read(n) if fd == 0 else real_osread(fd, n)
    os.read = os_read
    sys.stdin = In(io.BufferedReader(Raw(), 8192), 'utf-8', 'surrogateescape')
    calls = []
    stop = None
    for call in spec['calls']:
        if call.get('attrs'):
            tty.attrs = [list(x) if isinstance(x, list) else x for x in call['attrs']]
        tty.faults, tty.counts, tty.modes, tty.set_since = call.get('faults', []), {}, [], []
        tty.queue += bytes.fromhex(call.get('ahead', ''))
        tty.events = [list(e) for e in call.get('events', [])]
        before = tty.snapshot()
        tty.hit = False
        delivered = len(tty.delivered)
        try:
            r = ['ok', pc.wait_key()]
        except SimStop as e:
            stop = str(e)
            break
        except BaseException as e:
            r = ['exc', type(e).__name__, str(e)[:120]]
        tty.ev('done', r)
        calls.append(dict(r=r, before=before, after=tty.snapshot(), queue=bytes(tty.queue).hex(), modes=tty.modes, sets=tty.set_since,
                          delivered=bytes(tty.delivered[delivered:]).hex(), fired=tty.hit, late=[e for e in tty.events if e[0] > 0]))
        tty.queue.clear()
    os.read = real_osread
    return dict(status=0, stop=stop, calls=calls, log=tty.log, fires=tty.fires, clock=tty.clock, out=b'', err=b'')


def run_wait(spec):
    return in_child(_wait, spec)
