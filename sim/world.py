"""The simulated world: one application run in one forked process, with the
input source, the output device, the terminal size, the file layer, the process
exit and asynchronous exceptions under control of a plan (`spec`), which is a
plain JSON-able dict.  A run is a pure function of `spec` and of the code in
REPO: no clock, no randomness and no real terminal is consulted.

spec keys (all optional except argv):
  argv     list of arguments; '@F@' is replaced with the path of the input file
  name     name of the input file, 'in.bin' by default ('@A@' is the absolute path)
  input    [[hex, repeat], ...]  contents of the input
  source   'file' | 'fifo' | 'stdin' | 'none'  (what stands behind @F@ / stdin)
  seekless bool, stdin only (stdin is never seekable here)
  plan     [[kind, ...], ...]    delivery schedule, see SimRaw
  tail     'eof' | 'poison' | 'endless'  what follows after the contents
  open     null | ['err', errno] | ['ki']   outcome of opening the file
  out      {mode, enc, tty, faults: [[pos, kind], ...]}
  term     [[at, cols | null], ...]  terminal width once `at` bytes were received
  inject   {exc, at, ...}         asynchronous exception, see Tracer
  stdin    'poison' | 'closed' | 'none' | ...  state of stdin, if not the source
  limit    max. number of bytes in the output
  lines    line budget (deterministic execution limit), 0 = none
"""
import builtins
import errno
import io
import os
import pickle
import select
import signal
import struct
import sys
import traceback

REPO = os.environ.get('KOLOMBOS_REPO', '/repo')
PREFIXES = (REPO + '/kolombos/', REPO + '/pytermor/')

_real_open = builtins.open
_real_io_open = io.open


class SimStop(BaseException):
    """Terminates a run which exceeded its budget."""


class HarnessError(Exception):
    pass


def load_repo():
    """Import the application from the working tree, ignoring any bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/pyc'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import importlib.resources, importlib.readers, tempfile, shutil, textwrap, gettext, locale, argparse, logging  # noqa (used lazily by the app)
    import dataclasses, abc, enum, functools, threading, queue, termios, concurrent.futures  # noqa
    from .lib import SimLock
    real = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = (lambda: SimLock(real[0]())), (lambda: SimLock(real[1]()))
    try:
        import kolombos.__main__  # noqa
        import pytermor  # noqa
    finally:
        threading.Lock, threading.RLock = real
    for m in (kolombos, pytermor):
        if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + '/'):
            raise HarnessError(f'{m.__name__} is imported from {m.__file__}')


def expand(pieces) -> bytes:
    return b''.join(bytes.fromhex(h) * n for h, n in pieces)


# ---------------------------------------------------------------- input side

class SimRaw(io.RawIOBase):
    """Raw input device.  Every readinto() consumes plan events:
      ['d', n]     up to n bytes are available now (a short read)
      ['stall', t] t simulated seconds pass before anything arrives
      ['err', e]   the read fails with errno e
      ['ki']       Ctrl+C arrives while blocked in the read
      ['none']     non-blocking source: no data now
    After the plan everything that remains is available at once."""

    def __init__(self, world, data, plan, kind, tail='eof', name='<stdin>'):
        super().__init__()
        self.w, self.data, self.plan, self.kind, self.tail = world, data, [list(e) for e in plan], kind, tail
        self.pos = 0
        self.name = name
        self.mode = 'rb'
        self._fd = None
        self.seekcount = 0

    def readable(self): return True
    def seekable(self): return self.kind == 'file'

    def fileno(self):
        if self.kind == 'stdin':
            return 0
        if self._fd is None:
            self._fd = os.open(self.w.path, os.O_RDONLY)
        return self._fd

    def isatty(self): return False

    def seek(self, offset, whence=0):
        if not self.seekable():
            raise OSError(errno.ESPIPE, 'Illegal seek')
        new = offset + (0, self.pos, len(self.data))[whence]
        if new != self.pos:
            self.w.ev('seek', self.kind, new)
        self.pos = new
        return self.pos

    def tell(self):
        if not self.seekable():
            raise OSError(errno.ESPIPE, 'Illegal seek')
        return self.pos

    def read(self, n=-1):  # direct use of the raw object by the application
        self.w.ev('req', self.kind, 'raw', n)
        r = super().read(n)
        self.w.ev('got', self.kind, -1 if r is None else len(r))
        if r:
            self.w.app_received += len(r)
        return r

    def readinto(self, b):
        w = self.w
        if self.closed:
            raise ValueError('I/O operation on closed file')
        avail = None
        while self.plan:
            e = self.plan[0]
            if e[0] == 'stall':
                self.plan.pop(0)
                w.clock += e[1]
                w.fired('stall')
                continue
            if e[0] == 'd':
                avail = e[1]
                break
            self.plan.pop(0)
            w.ev('fault', self.kind, *e)
            w.fired('in:' + e[0] + (':' + errno.errorcode.get(e[1], '?') if e[0] == 'err' else ''))
            if e[0] == 'err':
                w.input_failed = True
                raise OSError(e[1], os.strerror(e[1]))
            if e[0] == 'ki':
                w.interrupted = True
                raise KeyboardInterrupt
            if e[0] == 'none':
                w.input_failed = True
                return None
            raise HarnessError(f'bad plan event {e}')
        w.clock += 0.001
        n = len(b) if avail is None else min(len(b), avail)
        part = self.data[self.pos:self.pos + n]
        if avail is not None:
            if len(part) < self.plan[0][1] and len(part) > 0:
                self.plan[0][1] -= len(part)
                if len(part) < len(b):
                    w.fired('in:short')
            else:
                self.plan.pop(0)
                if 0 < len(part) < len(b):
                    w.fired('in:short')
        if not part and n:
            if self.tail == 'eof':
                w.ev('rawread', self.kind, 0)
                w.eof_seen = True
                return 0
            if self.tail == 'poison':
                w.ev('poison', self.kind)
                w.poisoned += 1
                raise OSError(errno.EIO, 'read past the limit')
            if self.tail == 'stuck':   # would block forever
                w.ev('poison', self.kind)
                w.poisoned += 1
                raise SimStop('blocked forever in a read')
            part = (b'endless line\n' * (n // 13 + 1))[:n]
            w.endless += n
            if w.endless > 1 << 20:
                raise SimStop('endless input is being read')
            b[:len(part)] = part
            return len(part)
        b[:len(part)] = part
        self.pos += len(part)
        w.raw_received += len(part)
        w.ev('rawread', self.kind, len(part))
        return len(part)

    def close(self):
        if not self.closed:
            self.w.ev('close', self.kind)
            self.w.closed.append(self.kind)
            if self._fd is not None:
                os.close(self._fd)
        super().close()


class SimReader(io.BufferedReader):
    """Standard BufferedReader which logs what the application asks for."""

    def _wrap(self, name, n, fn, *a):
        w = self.raw.w
        w.ev('req', self.raw.kind, name, n)
        r = fn(*a)
        got = r if isinstance(r, int) else (-1 if r is None else len(r))
        if got > 0 and name != 'peek':
            w.app_received += got
        w.ev('got', self.raw.kind, got)
        return r

    def read(self, n=-1): return self._wrap('read', n, super().read, n)
    def read1(self, n=-1): return self._wrap('read1', n, super().read1, n)
    def readinto(self, b): return self._wrap('readinto', len(b), super().readinto, b)
    def readinto1(self, b): return self._wrap('readinto1', len(b), super().readinto1, b)
    def readline(self, n=-1): return self._wrap('readline', n, super().readline, n)
    def peek(self, n=0): return self._wrap('peek', n, super().peek, n)

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def close(self):
        if not self.closed and getattr(self, '_finalizing', False):
            self.raw.w.ev('leak', self.raw.kind)  # garbage collected, not closed
        super().close()


# --------------------------------------------------------------- output side

class SimOut(io.RawIOBase):
    """Raw output device with faults placed at byte positions:
      [pos, 'full']   no space from pos on (ENOSPC), forever
      [pos, 'pipe']   EPIPE from pos on, forever
      [pos, 'eio']    EIO from pos on, forever
      [pos, 'eio1']   one EIO at pos, then the device works again
      [pos, 'eagain'] one EAGAIN at pos (non-blocking descriptor)
      [pos, 'short']  the write that reaches pos is cut there
      [pos, 'ki']     Ctrl+C arrives when the write that reaches pos is issued
    """
    PERM = {'full': errno.ENOSPC, 'pipe': errno.EPIPE, 'eio': errno.EIO}

    def __init__(self, world, name, tty=False, faults=(), atomic=False, limit=0):
        super().__init__()
        self.w, self._nm, self._tty = world, name, tty
        self.faults = sorted([list(f) for f in faults], key=lambda f: f[0])
        self.atomic = atomic
        self.buf = bytearray()
        self.limit = limit
        self.name = f'<{name}>'
        self.mode = 'wb'

    def writable(self): return True
    def fileno(self): return 1 if self._nm == 'stdout' else 2
    def isatty(self): return self._tty

    def write(self, b):
        w = self.w
        b = bytes(b)
        if self.closed:
            raise ValueError('write to closed file')
        n = len(b)
        pos = len(self.buf)
        while self.faults and self.faults[0][0] < pos:
            self.faults.pop(0)
        if self.faults and n and self.faults[0][0] <= pos + (n - 1):
            fpos, kind = self.faults[0][:2]
            if fpos > pos and not self.atomic and kind != 'ki':  # partial write up to the position
                n = fpos - pos
                if kind == 'short':
                    self.faults.pop(0)
                    w.fired('out:short')
            elif kind == 'short':
                self.faults.pop(0)
            else:
                w.fired('out:' + kind)
                w.ev('fault', self._nm, kind, pos)
                w.output_failed = True
                if kind in self.PERM:
                    self.faults[0][0] = pos
                    if self.atomic:
                        self.faults[0][0] = 0
                        self.faults[:] = [[-1, kind]]
                    raise OSError(self.PERM[kind], os.strerror(self.PERM[kind]))
                self.faults.pop(0)
                if kind == 'eio1':
                    raise OSError(errno.EIO, os.strerror(errno.EIO))
                if kind == 'eagain':
                    if self.atomic:
                        raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
                    return None
                if kind == 'ki':
                    w.interrupted = True
                    raise KeyboardInterrupt
                raise HarnessError(f'bad output fault {kind}')
        self.buf += b[:n]
        w.ev('write', self._nm, len(self.buf))
        w.clock += 0.0001
        if self.limit and len(self.buf) > self.limit:
            raise SimStop('runaway output')
        return n


class _PermFix(SimOut):
    """Unbuffered device: permanent faults hit every later write."""
    def write(self, b):
        if self.faults and self.faults[0][0] == -1 and len(b):
            kind = self.faults[0][1]
            self.w.fired('out:' + kind)
            raise OSError(self.PERM[kind], os.strerror(self.PERM[kind]))
        return super().write(b)


# ------------------------------------------------------------------ tracing

class Tracer:
    """Counts executed source lines of the application; injects an exception
    before the k-th one.  mode 'record' collects the sites."""

    def __init__(self, world, inject, budget):
        self.w = world
        self.n = 0
        self.inject = inject
        self.at = inject.get('at') if inject else None
        self.budget = budget
        self.record = bool(inject and inject.get('exc') == 'record')
        self.sites = []   # (index, file:line) while the window is open
        self.injected = None

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIXES):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event != 'line':
            return self.local
        self.n += 1
        if self.budget and self.n > self.budget:
            raise SimStop('line budget exceeded')
        if self.record:
            self.sites.append((f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}:{frame.f_lineno - frame.f_code.co_firstlineno}', self.w.seq))
        elif self.at is not None and self.n == self.at:
            self.injected = f'{frame.f_code.co_filename[len(REPO) + 1:]}:{frame.f_lineno}'
            self.w.ev('inject', self.inject['exc'], self.injected)
            self.w.fired('inject:' + self.inject['exc'])
            if self.inject['exc'] == 'ki':
                self.w.interrupted = True
                raise KeyboardInterrupt
            if self.inject['exc'] == 'mem':
                raise MemoryError
            raise HarnessError('bad injection')
        return self.local


# -------------------------------------------------------------------- world

class World:
    def __init__(self, spec, scratch):
        self.spec = spec
        self.scratch = scratch
        self.path = os.path.join(os.path.realpath(scratch), 'in.bin')
        self.log = []
        self.seq = 0
        self.clock = 0.0
        self.fires = {}
        self.closed = []
        self.opened = []
        self.raw_received = self.app_received = 0
        self.input_failed = self.output_failed = self.interrupted = self.eof_seen = False
        self.poisoned = self.endless = 0
        self.term_calls = 0

    def ev(self, *e):
        self.seq += 1
        self.log.append((self.seq, *e, len(self.out.buf) if self.out else 0))

    def fired(self, k):
        self.fires[k] = self.fires.get(k, 0) + 1

    # -- patched calls
    def sim_open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        target = None
        if isinstance(file, int):
            if file == 0:
                target = 'stdin'
        else:
            try:
                p = os.fspath(file)
                p = os.fsdecode(p)
                if os.path.abspath(p) == self.path:
                    target = 'file'
            except TypeError:
                pass
        if target is None:
            self.ev('foreign', str(file), mode)
            if any(c in mode for c in 'wax+'):
                self.foreign_writes.append(f'{file}:{mode}')
            return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.ev('open', target, mode)
        self.opened.append(mode)
        if any(c in mode for c in 'wax+'):
            self.foreign_writes.append(f'@F@:{mode}')
        if target == 'stdin':
            raw = self.stdin_raw
        else:
            o = self.spec.get('open')
            if o:
                self.fired('open:' + o[0] + (':' + errno.errorcode[o[1]] if o[0] == 'err' else ''))
                if o[0] == 'err':
                    self.input_failed = True
                    raise OSError(o[1], os.strerror(o[1]), os.fspath(file))
                if o[0] == 'ki':
                    self.interrupted = True
                    raise KeyboardInterrupt
            raw = SimRaw(self, self.data, self.spec.get('plan', ()), self.spec.get('source', 'file'),
                         self.spec.get('tail', 'eof'), os.fspath(file))
        if buffering == 0:
            return raw
        buf = SimReader(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def sim_terminal_size(self, fd=1):
        """The width is a function of the amount of input received so far."""
        t = self.spec.get('term') or [[0, 80]]
        cols = t[0][1]
        for at, c in t:
            if self.app_received >= at:
                cols = c
        if self.term_calls and cols != self.term_last:
            self.fired('term:resize')
        self.term_calls += 1
        self.term_last = cols
        self.ev('term', -1 if cols is None else cols)
        if cols is None:
            self.fired('term:unknown')
            raise OSError(errno.ENOTTY, 'Inappropriate ioctl for device')
        return os.terminal_size((cols, 24))

    def entry(self):
        import kolombos.__main__ as m
        return m.main

    # -- set-up of one run
    def setup(self):
        spec = self.spec
        self.out = None
        self.foreign_writes = []
        self.data = expand(spec.get('input', []))
        os.chdir(self.scratch)
        name = spec.get('name') or 'in.bin'
        self.path = os.path.join(os.path.realpath(self.scratch), name)
        with _real_io_open(self.path, 'wb') as f:
            f.write(self.data)
        o = spec.get('out', {})
        mode, enc, tty = o.get('mode', 'unbuffered'), o.get('enc', 'utf-8'), o.get('tty', False)
        limit = spec.get('limit', 0)
        cls = _PermFix if mode == 'unbuffered' else SimOut
        self.out = cls(self, 'stdout', tty, o.get('faults', ()), mode == 'unbuffered', limit)
        if mode == 'unbuffered':
            so = io.TextIOWrapper(self.out, enc, o.get('errors', 'strict'), '\n', write_through=True)
        else:
            so = io.TextIOWrapper(io.BufferedWriter(self.out, 8192), enc, o.get('errors', 'strict'), '\n', line_buffering=(mode == 'line'))
        self.err = SimOut(self, 'stderr', tty, limit=limit)
        se = io.TextIOWrapper(self.err, 'utf-8', 'backslashreplace', '\n', write_through=True, line_buffering=True)
        src = spec.get('source', 'file')
        if src == 'stdin':
            self.stdin_raw = SimRaw(self, self.data, spec.get('plan', ()), 'stdin', spec.get('tail', 'eof'))
        else:
            self.stdin_raw = SimRaw(self, b'', spec.get('stdin_plan', ()), 'stdin', spec.get('stdin', 'poison'))
        si = io.TextIOWrapper(SimReader(self.stdin_raw), 'utf-8', 'surrogateescape')
        if spec.get('stdin') == 'closed' and src != 'stdin':
            self.stdin_raw.tail = 'eof'
            si.close()
        elif spec.get('stdin') == 'absent' and src != 'stdin':
            self.stdin_raw.tail = 'eof'
            si = None
        sys.stdin, sys.stdout, sys.stderr = si, so, se
        sys.__stdin__, sys.__stdout__, sys.__stderr__ = si, so, se
        self.log.clear()
        self.seq = 0
        self.closed.clear()
        self.opened.clear()
        builtins.open = io.open = self.sim_open
        os.get_terminal_size = self.sim_terminal_size
        import shutil
        shutil.os.get_terminal_size = self.sim_terminal_size
        os.environ.pop('COLUMNS', None)
        os.environ.pop('LINES', None)
        sys.argv = ['kolombos'] + [a.replace('@A@', self.path).replace('@F@', name) for a in spec['argv']]

    def run(self):
        """Run the application once; emulates what the interpreter does at exit."""
        spec = self.spec
        self.setup()
        main = self.entry()
        dir_before = sorted(os.listdir(self.scratch))
        inject = spec.get('inject')
        tracer = Tracer(self, inject, spec.get('lines', 0)) if inject or spec.get('lines') else None
        status, stop, uncaught = None, None, None
        so, se = sys.stdout, sys.stderr
        if tracer:
            sys.settrace(tracer.glob)
        try:
            try:
                main()
                status = 0
            finally:
                sys.settrace(None)
        except SystemExit as e:
            c = e.code
            status = 0 if c is None else c if isinstance(c, int) else 1
            if not (c is None or isinstance(c, int)):
                self._try_print(se, str(c))
        except SimStop as e:
            stop = str(e)
            status = -1
        except KeyboardInterrupt as e:
            uncaught = 'KeyboardInterrupt'
            self._try_print(se, ''.join(traceback.format_exception(e)))
            status = 130
        except BaseException as e:
            uncaught = type(e).__name__
            self._try_print(se, ''.join(traceback.format_exception(e)))
            status = 1
        main_seq = self.seq
        if stop is None:
            for _ in range(2):  # Py_FinalizeEx, then destruction of the stream
                try:
                    if not so.closed:
                        so.flush()
                    break
                except (SimStop, HarnessError):
                    raise
                except BaseException as e:
                    self._try_print(se, f'Exception ignored in: <stdout>\n{type(e).__name__}: {e}')
                    status = 120
        res = dict(
            status=status & 0xff if status is not None and status >= 0 else status, stop=stop, uncaught=uncaught,
            out=bytes(self.out.buf), err=bytes(self.err.buf), log=self.log, fires=self.fires, clock=self.clock,
            main_seq=main_seq, opened=list(self.opened), closed=list(self.closed), poisoned=self.poisoned,
            endless=self.endless, raw_received=self.raw_received, app_received=self.app_received,
            foreign_writes=self.foreign_writes, term_calls=self.term_calls, eof_seen=self.eof_seen,
            input_failed=self.input_failed, output_failed=self.output_failed, interrupted=self.interrupted,
            dir_changed=sorted(os.listdir(self.scratch)) != dir_before or _read(self.path) != self.data,
        )
        if os.path.basename(self.path) != 'in.bin':
            os.unlink(self.path)
        if tracer:
            res['nlines'] = tracer.n
            res['injected'] = tracer.injected
            if tracer.record:
                res['sites'] = tracer.sites
        return res

    @staticmethod
    def _try_print(se, s):
        try:
            se.write(s + '\n')
            se.flush()
        except BaseException:
            pass


class SimDisk(SimOut):
    """A file being written: SimOut, with everything accepted also stored in a scratch file."""

    def __init__(self, world, path, faults, mode):
        super().__init__(world, 'legend', False, faults)
        flags = {'w': os.O_CREAT | os.O_TRUNC, 'x': os.O_CREAT | os.O_EXCL, 'a': os.O_CREAT | os.O_APPEND}
        self._disk = os.open(path, os.O_WRONLY | next((v for k, v in flags.items() if k in mode), 0), 0o644)

    def fileno(self): return self._disk

    def write(self, b):
        k = len(self.buf)
        n = super().write(b)
        if len(self.buf) > k: os.write(self._disk, self.buf[k:])
        return n

    def close(self):
        if not self.closed: os.close(self._disk)
        super().close()


class LegendWorld(World):
    """dev/generate_legend.py, from a scratch copy, since it writes next to itself.  More keys of spec:
      template  [[hex, repeat], ...] | null    the template, the one of REPO by default
      now       seconds: the clock
      wopen     null | errno                   outcome of opening a file for writing
      disk      [[pos, kind], ...]             faults of the file which is written, see SimOut
      old       number of lines of the previous legend, 0 if there is none
    """
    OLD = b'the previous legend\n'

    def setup(self):
        import datetime
        import shutil
        super().setup()
        top = os.path.join(os.path.realpath(self.scratch), 'lg')
        shutil.rmtree(top, ignore_errors=True)
        os.makedirs(top + '/dev')
        os.makedirs(top + '/kolombos')
        for f in os.listdir(REPO + '/dev'):
            if f.endswith('.py'):
                with _real_io_open(f'{top}/dev/{f}', 'wb') as g: g.write(_read(f'{REPO}/dev/{f}'))
        sys.dont_write_bytecode = True
        self.top = top
        self.target = top + '/kolombos/legend.ansi'
        if os.path.exists(self.target): os.unlink(self.target)
        if self.previous(self.spec) is not None:
            with _real_io_open(self.target, 'wb') as f: f.write(self.previous(self.spec))
        self.path = top + '/dev/legend.tpl.ansi'
        t = self.spec.get('template')
        self.data = _read(REPO + '/dev/legend.tpl.ansi') if t is None else expand(t)
        with _real_io_open(self.path, 'wb') as f: f.write(self.data)
        sys.argv = [top + '/dev/generate_legend.py']
        if sys.path[0] != top + '/dev': sys.path.insert(0, top + '/dev')
        base, now = datetime.datetime, self.spec.get('now', 0)
        base = getattr(base, 'real', base)

        class Clock(base):
            real = base

            @classmethod
            def now(cls, tz=None): return base(1970, 1, 1, tzinfo=tz) + datetime.timedelta(seconds=now)
            today = utcnow = now
        Clock.__name__ = 'datetime'
        datetime.datetime = Clock

    @classmethod
    def previous(cls, spec): return cls.OLD * spec.get('old', 1) or None

    def sim_open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not isinstance(file, int) and any(c in mode for c in 'wax+'):
            p = os.path.abspath(os.fsdecode(os.fspath(file)))
            self.ev('create', os.path.relpath(p, self.top), mode)
            e = self.spec.get('wopen')
            if e:
                self.fired('create:' + errno.errorcode[e])
                self.output_failed = True
                raise OSError(e, os.strerror(e), p)
            if not p.startswith(self.top + '/') or p == self.path:
                self.foreign_writes.append(p)
                raise OSError(errno.EACCES, os.strerror(errno.EACCES), p)
            raw = io.BufferedWriter(SimDisk(self, p, self.spec.get('disk', ()), mode), 8192)
            return raw if 'b' in mode else io.TextIOWrapper(raw, encoding or 'utf-8', errors, newline)
        return super().sim_open(file, mode, buffering, encoding, errors, newline, closefd, opener)

    def entry(self):
        import runpy
        return lambda: runpy.run_path(sys.argv[0], run_name='__main__')

    def run(self):
        res = super().run()
        res['legend'] = _read(self.target) if os.path.exists(self.target) else None
        res['files'] = sorted(os.path.relpath(os.path.join(d, f), self.top) for d, _, fs in os.walk(self.top) for f in fs if not f.endswith('.py'))
        return res


def _read(p):
    with _real_io_open(p, 'rb') as f:
        return f.read()


# ------------------------------------------------------ process per execution

CPU_LIMIT = 20
CPU_CAP = None      # set while minimising: expensive candidates are skipped


def _child(fn, arg, wfd, cpu):
    code = 0
    try:
        null = os.open('/dev/null', os.O_RDWR)
        os.dup2(null, 0)
        os.dup2(null, 1)

        def on_timer(*_):
            signal.setitimer(signal.ITIMER_VIRTUAL, 1)  # insist
            raise SimStop('cpu')
        signal.signal(signal.SIGVTALRM, on_timer)
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
        try:
            r = ('ok', fn(arg))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except BaseException:
        r = ('exc', traceback.format_exc())
    try:
        data = pickle.dumps(r)
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off:off + 65536])
    except BaseException:
        code = 3
    os._exit(code)


def in_child(fn, arg, cpu=CPU_LIMIT, wall=600):
    """Run fn(arg) in a forked copy of this (pristine) process."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(fn, arg, w, cpu)
    os.close(w)
    chunks = []
    import time
    deadline = time.monotonic() + wall
    ok = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            break
        rl, _, _ = select.select([r], [], [], min(left, 5))
        if rl:
            c = os.read(r, 1 << 20)
            if not c:
                ok = True
                break
            chunks.append(c)
    os.close(r)
    if not ok:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise HarnessError('a simulated run exceeded the wall clock limit')
    os.waitpid(pid, 0)
    data = b''.join(chunks)
    if not data:
        raise HarnessError('a simulated run died without a result')
    kind, val = pickle.loads(data)
    if kind == 'exc':
        raise HarnessError('exception in a simulated run:\n' + val)
    return val


_scratch = None
SCRATCH_ROOT = None       # made and removed by the engine


def scratch_dir():
    """Per process scratch directory."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        import tempfile
        d = tempfile.mkdtemp(prefix='w', dir=SCRATCH_ROOT or '/tmp')
        _scratch = (os.getpid(), d)
    return _scratch[1]


def _world(spec, d):
    return (LegendWorld if spec.get('script') == 'legend' else World)(spec, d).run()


def _one(a):
    return _world(*a)


def _many(a):
    specs, d = a
    return [_world(s, d) for s in specs]


def sanitize(res, d):
    if isinstance(res, list):
        return [sanitize(r, d) for r in res]
    b = d.encode()
    res['out'] = res['out'].replace(b, b'/scratch')
    res['err'] = res['err'].replace(b, b'/scratch')
    res['log'] = [tuple(x.replace(d, '/scratch') if isinstance(x, str) else x for x in e) for e in res['log']]
    return res


class Undecided(Exception):
    """The run is too expensive to be judged; the scenario is left out."""


def run(spec):
    """One run of the application in a fresh process."""
    d = scratch_dir()
    n = sum(len(h) // 2 * k for h, k in spec.get('input', []))
    cpu = CPU_LIMIT + n / 1000
    res = in_child(_one, (spec, d), cpu=min(cpu, CPU_CAP or cpu))
    if res['stop'] == 'cpu':
        if CPU_CAP and CPU_CAP < cpu:
            raise Undecided(f'{n} bytes')
        # decide deterministically: same run with a limit on executed lines
        # (the application is quadratic in the number of segments per buffer)
        res = in_child(_one, (dict(spec, lines=500_000 + 20_000 * n + 100 * n * min(n, 4096)), d), cpu=80, wall=800)
        if res['stop'] == 'cpu' and n > 1000:
            raise Undecided(f'{n} bytes')
    return sanitize(res, d)


def run_history(specs):
    """Several runs of the application one after another in one process."""
    d = scratch_dir()
    return sanitize(in_child(_many, (specs, d), cpu=4 * CPU_LIMIT), d)
