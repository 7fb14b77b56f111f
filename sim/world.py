'''
The simulated world: every module-level door between GiMPy and the outside is
replaced here - Graphviz processes, temporary and picture files, the PIL,
matplotlib and xdot viewers, time, sleep, standard output, exit() and locks.
Files are real files inside a private scratch directory, behind proxies that
can fail.
'''
import builtins
import errno
import hashlib
import io
import os
import random
import re
import shlex
import subprocess
import sys
import tempfile
import threading
import time
import types
import warnings

from . import dot as dotlang
from .kernel import Sim, SimLock, active

TEX = ('dot2tex', 'latex', 'pdflatex', 'dvips')
LAYOUTS = ('dot', 'neato', 'fdp', 'sfdp', 'twopi', 'circo', 'osage',
           'patchwork')

real = types.SimpleNamespace(
    io_open=io.open, os_open=os.open, os_close=os.close, os_write=os.write,
    os_remove=os.remove, os_unlink=os.unlink, time=time.time,
    monotonic=time.monotonic, sleep=time.sleep, popen=subprocess.Popen,
    stdout=sys.stdout, os_fdopen=os.fdopen, os_mkdir=os.mkdir,
    urandom=os.urandom, getpid=os.getpid)
epoch, uptime, pid = 1.7e9, 1e3, 4711
entropy = random.Random(0)

scratch = None     # private directory of this process
tmpdir = None      # where temporary files go
cwd = None         # where pictures go
repo_src = None
gimpy = None
graphmod = None
fdowner = {}       # fd -> True for descriptors opened through os.open


class Image(object):
    '''What Graphviz drew: the whole identity of a picture is its bytes.'''


def picture(kind, layout, fmt, text):
    '''Bytes the simulated Graphviz produces for a DOT text.'''
    h = hashlib.sha256(('%s|%s|' % (layout, fmt)).encode() +
                       text.encode('utf8', 'surrogatepass')).digest()
    n = 64 + h[0] * 16
    if h[1] < 12:
        n += 70000
    return b'SIMIMG' + h + (h * (n // 32 + 1))[:n] + b'END'


def typeset(kind, data):
    '''Bytes a simulated TeX program makes of its input.'''
    if isinstance(data, str):
        data = data.encode('utf8', 'surrogatepass')
    return b'SIM' + kind.encode() + hashlib.sha256(data).hexdigest().encode()


def texpicture(fmt, tex):
    '''What becomes of a text in TeX.'''
    if fmt == 'ps':
        return typeset('ps', typeset('dvi', tex))
    return typeset('pdf', tex)


def texframe(c, text):
    frame = {'via': 'dot2tex', 'layout': None, 'fmt': None, 'text': text,
             'parsed': None, 'bad': None, 'image': None, 'ok': True}
    try:
        frame['parsed'] = dotlang.parse(text)
    except dotlang.DotError as e:
        frame['bad'] = str(e)
    frame['tex'] = typeset('tex', text).decode()
    add_frame(c, frame)
    return frame


def dot2tex(text, *a, **k):
    '''The library.'''
    c = active()
    if c is None:
        return ''
    if isinstance(text, bytes):
        text = text.decode('utf8')
    frame = texframe(c, text)
    kind = Sim.current.seam('tex')
    Sim.current.sleep(30000)
    if kind is not None:
        frame['ok'] = False
    if kind == 'ctrlc':
        raise KeyboardInterrupt()
    if kind == 'error':
        c.fallback = True
        raise Exception('Error executing dot2tex')
    return frame['tex']


def oserr(kind, name=None):
    e = {'emfile': errno.EMFILE, 'enospc': errno.ENOSPC, 'eio': errno.EIO,
         'eacces': errno.EACCES, 'missing': errno.ENOENT,
         'enomem': errno.ENOMEM}[kind]
    if name is None:
        return OSError(e, os.strerror(e))
    return OSError(e, os.strerror(e), name)


# ------------------------------------------------------------------ files
class FileProxy(object):
    '''A file object whose writes and close can fail.'''
    def __init__(self, f, path):
        object.__setattr__(self, '_f', f)
        object.__setattr__(self, '_path', path)
        object.__setattr__(self, '_torn', None)

    def __getattr__(self, a):
        return getattr(self._f, a)

    def __setattr__(self, a, v):
        setattr(self._f, a, v)

    def write(self, data):
        if active() is not None and not self._f.closed:
            k = Sim.current.seam('write')
            if k is not None:
                self._f.write(data[:len(data) // 2])
                self._f.flush()
                raise oserr(k)
        return self._f.write(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def close(self):
        if active() is not None and not self._f.closed and self.writable():
            k = Sim.current.seam('close')
            if k is not None:
                # buffered data is lost, the descriptor is released
                try:
                    size = self._f.tell()
                    self._f.flush()
                    os.ftruncate(self._f.fileno(), size // 2)
                except (OSError, ValueError):
                    pass
                self._f.close()
                raise oserr(k)
        return self._f.close()

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __next__(self):
        return next(self._f)


def inside(path):
    try:
        p = os.path.abspath(os.fsdecode(path))
    except TypeError:
        return False
    return scratch is not None and (p + os.sep).startswith(scratch + os.sep)


def sim_open(file, mode='r', *a, **k):
    c = active()
    if c is None:
        return real.io_open(file, mode, *a, **k)
    ours = fdowner.get(file) if isinstance(file, int) else inside(file)
    if not ours:
        if not isinstance(file, int) and any(x in mode for x in 'wxa+'):
            raise PermissionError(errno.EACCES, 'outside the simulation',
                                  file)
        return real.io_open(file, mode, *a, **k)
    if c.render and c.fallback and not isinstance(file, int) and \
            os.fsdecode(file).endswith('.dot'):
        # errors here are errors of running dot2tex
        return real.io_open(file, mode, *a, **k)
    if not isinstance(file, int) and k.get('opener') is None:
        kind = Sim.current.seam('open')
        if kind is not None:
            raise oserr(kind, file)
    f = real.io_open(file, mode, *a, **k)
    return FileProxy(f, file)


def sim_os_open(path, flags, *a, **k):
    c = active()
    if c is None:
        return real.os_open(path, flags, *a, **k)
    if not inside(path):
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            raise PermissionError(errno.EACCES, 'outside the simulation',
                                  path)
        return real.os_open(path, flags, *a, **k)
    create = bool(flags & os.O_CREAT)
    if create:
        kind = Sim.current.seam('mkstemp')
        if kind is not None:
            raise oserr(kind, path)
    fd = real.os_open(path, flags, *a, **k)
    fdowner[fd] = create
    return fd


def sim_os_mkdir(path, *a, **k):
    if active() is not None:
        if not inside(path):
            raise PermissionError(errno.EACCES, 'outside the simulation',
                                  path)
        kind = Sim.current.seam('mkstemp')
        if kind is not None:
            raise oserr(kind, path)
    return real.os_mkdir(path, *a, **k)


def sim_os_write(fd, data):
    if active() is not None and fdowner.get(fd):
        k = Sim.current.seam('write')
        if k is not None:
            real.os_write(fd, bytes(data)[:len(data) // 2])
            raise oserr(k)
    return real.os_write(fd, data)


def sim_os_close(fd):
    if active() is not None and fdowner.get(fd):
        k = Sim.current.seam('close')
        if k is not None:
            real.os_close(fd)
            raise oserr(k)
    return real.os_close(fd)


def guard_remove(orig):
    def remove(path, *a, **k):
        if active() is not None:
            if not inside(path):
                raise PermissionError(errno.EACCES, 'outside the simulation',
                                      path)
            Sim.current.yield_point(5)
        return orig(path, *a, **k)
    return remove


class Names(object):
    '''Deterministic names for temporary files.'''
    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 't%06d' % self.n


# --------------------------------------------------------------- Graphviz
class Pipe(object):
    '''The parent's end of the child's standard input.'''
    def __init__(self, text):
        self.parts, self.text, self.closed = [], text, False

    def write(self, x):
        self.parts.append(x)
        return len(x)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def data(self):
        return b''.join(x if isinstance(x, bytes) else x.encode('utf8')
                        for x in self.parts)


class SimPopen(object):
    '''A Graphviz process.'''
    def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                 stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None,
                 startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), text=None,
                 encoding=None, errors=None, **kw):
        if active() is None:
            raise RuntimeError('process started outside an operation')
        if isinstance(args, (str, bytes)):
            args = shlex.split(os.fsdecode(args)) if shell else [args]
        elif shell:
            args = shlex.split(os.fsdecode(args[0]))
        self.args = [os.fsdecode(x) for x in args]
        self.text = bool(text or universal_newlines or encoding or errors)
        self.encoding = encoding or 'utf8'
        self.returncode = None
        self.pid = 4242
        self.killed = False
        self.result = None
        prog = os.path.basename(self.args[0])
        kind = Sim.current.seam('texspawn' if prog in TEX else 'spawn')
        if kind is not None:
            raise oserr(kind, self.args[0])
        if prog not in TEX and prog not in LAYOUTS:
            raise oserr('missing', self.args[0])
        self.prog = prog
        self.given_stdin, self.dst = stdin, (stdout, stderr)
        P = subprocess.PIPE
        self.stdin = Pipe(self.text) if stdin == P else None
        self.stdout = Output(self, 0) if stdout == P else None
        self.stderr = Output(self, 1) if stderr == P else None

    # what the process does, when its input is complete
    def run(self, data=None):
        if self.result is not None:
            return
        sim = Sim.current
        c = active()
        if self.prog in TEX:
            self.tex(sim, c)
            self.pass_on()
            return
        layout, fmt, files, outfile = self.prog, 'dot', [], None
        it = iter(self.args[1:])
        for a in it:
            if a.startswith('-T'):
                fmt = a[2:] or next(it, '')
            elif a.startswith('-K'):
                layout = a[2:] or next(it, '')
            elif a.startswith('-o'):
                outfile = a[2:] or next(it, '')
            elif a.startswith('-') and a != '-':
                if a in ('-G', '-N', '-E', '-s', '-n'):
                    next(it, None)
            else:
                files.append(a)
        if data is None and self.stdin is not None:
            data = self.stdin.data()
        if isinstance(data, str):
            data = data.encode(self.encoding)
        if data is None and self.given_stdin not in (None, subprocess.PIPE):
            data = (self.given_stdin.read()
                    if hasattr(self.given_stdin, 'read') else b'')
            if isinstance(data, str):
                data = data.encode(self.encoding)
        out, err, rc = b'', b'', 0
        try:
            if files:
                with real.io_open(files[0], 'rb') as f:
                    data = f.read()
            text = (data or b'').decode('utf8')
        except (OSError, UnicodeDecodeError) as e:
            text, err, rc = None, b'Error: can\'t open ' + repr(e).encode(), 2
        parsed, bad = None, None
        if text is not None:
            try:
                parsed = dotlang.parse(text)
            except dotlang.DotError as e:
                bad = str(e)
                err = b'Error: <stdin>: syntax error in line 1 ' + bad.encode()
                rc = 1
            else:
                out = picture('', layout, fmt, text)
        frame = {'via': 'graphviz', 'layout': layout, 'fmt': fmt,
                 'text': text, 'parsed': parsed, 'bad': bad,
                 'image': out if rc == 0 else None, 'ok': rc == 0}
        add_frame(c, frame)
        kind = sim.seam('wait')
        dur = 20000 + 500 * len(text or '')
        if kind == 'slow':
            dur = 45 * 1000000
        sim.sleep(dur)
        frame['fault'] = kind
        if kind == 'exit1':
            out, err, rc = b'', b'Error: layout was not done', 1
        elif kind == 'signal':
            out, err, rc = out[:40], b'', -11
        elif kind == 'stderr':
            err += b'Warning: node sizes are large\n'
        elif kind == 'garbage':
            out = b'GARBAGE' + out[6:20]
            frame['image'] = out
        if rc != 0:
            frame['image'] = None
            frame['ok'] = False
        self.result = (out, err, rc, dur, outfile)
        if kind == 'ctrlc':
            self.result = (b'', b'', -2, dur, None)
            frame['image'] = None
            frame['ok'] = False
            raise KeyboardInterrupt()
        if outfile is not None and rc == 0:
            with real.io_open(outfile, 'wb') as f:
                f.write(out)
            out = b''
            self.result = (out, err, rc, dur, outfile)
        self.pass_on()

    def tex(self, sim, c):
        '''dot2tex, latex, pdflatex, dvips.'''
        outfile, files = None, []
        it = iter(self.args[1:])
        for a in it:
            if a.startswith('-o'):
                outfile = a[2:] or next(it, '')
            elif not a.startswith('-'):
                files.append(a)
        base = files[-1] if files else ''
        ext = {'dot2tex': '', 'latex': '.tex', 'pdflatex': '.tex',
               'dvips': '.dvi'}[self.prog]
        if not base.endswith(ext):
            base += ext
        kind = sim.seam('texwait')
        dur = 400000 if kind != 'slow' else 45 * 1000000
        sim.sleep(dur)
        out, err, rc = b'', b'', 0
        try:
            with real.io_open(base, 'rb') as f:
                data = f.read()
        except OSError:
            data, rc, err = None, 1, b'! I can not find file'
        if kind == 'exit1':
            rc, out = 1, b'! Emergency stop.'
        elif kind == 'signal':
            rc = -11
        if kind == 'ctrlc':
            self.result = (b'', b'', -2, dur, None)
            raise KeyboardInterrupt()
        if rc == 0 and self.prog == 'dot2tex':
            frame = texframe(c, data.decode('utf8'))
            if outfile is None:
                out = frame['tex'].encode()
            else:
                with real.io_open(outfile, 'wb') as f:
                    f.write(frame['tex'].encode())
        elif rc == 0:
            kind = {'latex': 'dvi', 'pdflatex': 'pdf', 'dvips': 'ps'}[
                self.prog]
            name = outfile or '%s.%s' % (base[:-4], kind)
            with real.io_open(name, 'wb') as f:
                f.write(typeset(kind, data))
            out = b'Output written on %s' % name.encode()
        self.result = (out, err, rc, dur, None)

    def pass_on(self):
        for i, dst in enumerate(self.dst):
            if dst in (None, subprocess.PIPE, subprocess.DEVNULL,
                       subprocess.STDOUT):
                continue
            x = self.result[i]
            if hasattr(dst, 'write'):
                raw = getattr(dst, 'buffer', dst)
                raw.write(x)
            elif isinstance(dst, int):
                real.os_write(dst, x)

    def communicate(self, input=None, timeout=None):
        self.run(input)
        out, err, rc, dur, _ = self.result
        if timeout is not None and timeout * 1e6 < dur and not self.killed:
            raise subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = rc
        if self.dst[1] == subprocess.STDOUT:
            out = out + err
        res = []
        for i, x in ((0, out), (1, err)):
            if self.dst[i] != subprocess.PIPE:
                res.append(None)
            elif self.text:
                res.append(x.decode(self.encoding, 'replace'))
            else:
                res.append(x)
        return tuple(res)

    def wait(self, timeout=None):
        self.communicate(None, timeout)
        return self.returncode

    def poll(self):
        if self.result is not None:
            self.returncode = self.result[2]
        return self.returncode

    def kill(self):
        self.killed = True
        if self.result is None:
            self.result = (b'', b'', -9, 0, None)

    terminate = kill

    def send_signal(self, sig):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.result is None:
            self.run()
        self.returncode = self.result[2]


class Output(object):
    '''The parent's end of the child's output.'''
    def __init__(self, proc, i):
        self.proc, self.i, self.buf, self.closed = proc, i, None, False

    def _load(self):
        if self.buf is None:
            self.proc.run()
            x = self.proc.result[self.i]
            self.buf = (io.StringIO(x.decode('utf8', 'replace'))
                        if self.proc.text else io.BytesIO(x))
        return self.buf

    def read(self, *a):
        return self._load().read(*a)

    def readline(self, *a):
        return self._load().readline(*a)

    def __iter__(self):
        return iter(self._load())

    def close(self):
        self.closed = True


def add_frame(c, frame):
    '''A frame reached Graphviz, a viewer or a file.'''
    if c.dstack:
        hook = frame_hook
        if hook is not None:
            hook(c, c.dstack[-1], frame)
    c.frames.append(frame)


frame_hook = None
display_done = None


# ---------------------------------------------------------------- viewers
class UnidentifiedImageError(OSError):
    pass


class PILImage(object):
    '''A picture opened through PIL: keeps the file open until closed.'''
    def __init__(self, path):
        kind = Sim.current.seam('imopen') if active() is not None else None
        if kind is not None:
            raise oserr(kind, path)
        if hasattr(path, 'read'):
            self._fp = None
            self.data = path.read()
        else:
            self._fp = real.io_open(path, 'rb')
            self.data = self._fp.read()
        if not self.data.startswith(b'SIMIMG') or \
                not self.data.endswith(b'END'):
            self.close()
            raise UnidentifiedImageError('cannot identify image file %r'
                                         % path)
        self.size = (100, 100)
        self.mode = 'RGB'

    def show(self, *a, **k):
        c = active()
        if c is None:
            return
        deliver(c, 'PIL', self.data)
        if Sim.current.seam('show') == 'ctrlc':
            raise KeyboardInterrupt()

    def load(self):
        return self

    def copy(self):
        return self

    def convert(self, *a, **k):
        return self

    def close(self):
        if self._fp is not None:
            self._fp.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def deliver(c, channel, data):
    '''A picture reached its viewer.'''
    for f in reversed(c.frames):
        if f['via'] == 'graphviz' and f.get('image') is not None:
            f.setdefault('delivered', []).append((channel, data == f['image']))
            return
    c.frames.append({'via': 'stray', 'delivered': [(channel, False)]})


class Canvas(object):
    def __init__(self, fig):
        self.fig = fig

    def mpl_connect(self, event, fn):
        fignow().handlers.setdefault(event, []).append(fn)
        return len(fignow().handlers[event])

    def __getattr__(self, a):
        return lambda *x, **k: None


class Figure(object):
    '''A window; each client has its own display.'''
    def __init__(self):
        self.handlers = {}
        self.image = None
        self.canvas = Canvas(self)

    def __getattr__(self, a):
        return lambda *x, **k: None


figures = {}


def fignow():
    c = active()
    key = c.idx if c is not None else None
    if key not in figures:
        figures[key] = Figure()
    return figures[key]


class Lenient(types.ModuleType):
    '''A library we stand in for: what we do not model does nothing.'''
    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return lambda *x, **k: None


def mod(name, **attrs):
    m = Lenient(name)
    m.__path__ = []
    m.__spec__ = None
    m.__dict__.update(attrs)
    sys.modules[name] = m
    return m


def plt_figure(*a, **k):
    return fignow()


def plt_imshow(im, *a, **k):
    c = active()
    fignow().image = im
    if c is not None:
        deliver(c, 'matplotlib', getattr(im, 'data', None))


def plt_close(*a, **k):
    fig = fignow()
    fig.handlers = {}


def plt_wait(*a, **k):
    c = active()
    if c is None:
        return None
    sim = Sim.current
    kind = sim.seam('click')
    sim.sleep(1500000)
    if kind == 'key':
        return True
    if kind == 'timeout':
        return None
    if kind == 'ctrlc':
        raise KeyboardInterrupt()
    if kind == 'close':
        fig = fignow()
        for fn in list(fig.handlers.get('close_event', [])):
            fn(None)
        return None
    return False


def plt_show(*a, **k):
    if active() is not None and Sim.current.seam('show') == 'ctrlc':
        raise KeyboardInterrupt()


class DotWindow(object):
    def __init__(self, *a, **k):
        self.code = None

    def set_dotcode(self, code, *a, **k):
        c = active()
        if c is None:
            return True
        if isinstance(code, bytes):
            code = code.decode('utf8')
        frame = {'via': 'xdot', 'layout': None, 'fmt': None, 'text': code,
                 'parsed': None, 'bad': None, 'image': None, 'ok': True,
                 'delivered': [('xdot', True)]}
        try:
            frame['parsed'] = dotlang.parse(code)
        except dotlang.DotError as e:
            frame['bad'] = str(e)
        add_frame(c, frame)
        return True

    def __getattr__(self, a):
        return lambda *x, **k: None


def gtk_main(*a, **k):
    if active() is not None:
        sim = Sim.current
        kind = sim.seam('show')
        sim.sleep(2000000)
        if kind == 'ctrlc':
            raise KeyboardInterrupt()


class Router(io.TextIOBase):
    '''Standard output: each operation keeps what it printed.'''
    encoding = 'utf8'

    def write(self, s):
        c = active()
        if c is None:
            return len(s)
        (c.rout if c.render else c.out).append(str(s))
        return len(s)

    def flush(self):
        pass

    def writable(self):
        return True

    def isatty(self):
        return False


def sim_exit(code=None):
    raise SystemExit(code)


def environment(sc):
    '''What a process finds when it starts and has no say in.'''
    global epoch, uptime, pid
    k = sc.get('env', 0)
    epoch, uptime = (1.7e9, 1e3) if not k else (1.83e9 + 12345.678, 9e6)
    pid = 4711 + 31 * k
    seed = '%s/%s/%s/%s' % (sc.get('prop'), sc.get('seed'), sc.get('idx'), k)
    random.seed(seed)
    entropy.seed(seed)


def used():
    '''Forget what an earlier run in this process had open.'''
    base_fds.update(open_fds())
    for d in (tmpdir, cwd):
        for x in os.listdir(d):
            real.os_remove(os.path.join(d, x))


def sim_time():
    if active() is not None:
        return epoch + Sim.current.now / 1e6
    return real.time()


def sim_monotonic():
    if active() is not None:
        return uptime + Sim.current.now / 1e6
    return real.monotonic()


def sim_urandom(n):
    if active() is not None:
        return entropy.randbytes(n)
    return real.urandom(n)


def sim_getpid():
    return pid if active() is not None else real.getpid()


def sim_sleep(s):
    if active() is not None:
        Sim.current.sleep(int(s * 1e6))
    else:
        real.sleep(s)


def install(src):
    '''Install stand-ins, import gimpy from src, patch the seams.'''
    global repo_src, gimpy, graphmod
    repo_src = src
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    plt = mod('matplotlib.pyplot', figure=plt_figure, imshow=plt_imshow,
              waitforbuttonpress=plt_wait, show=plt_show, close=plt_close,
              gcf=plt_figure, rcParams={})
    mod('matplotlib', pyplot=plt, rcParams={}, __version__='3.8.0')
    pim = mod('PIL.Image', open=PILImage, Image=PILImage,
              UnidentifiedImageError=UnidentifiedImageError)
    mod('PIL', Image=pim, UnidentifiedImageError=UnidentifiedImageError,
        __version__='10.0')
    mod('dot2tex', dot2tex=dot2tex)
    mod('pygtk')
    mod('gtk', main=gtk_main)
    mod('xdot', DotWindow=DotWindow)
    builtins.exit = builtins.quit = sim_exit
    sys.exit_real = sys.exit
    threading.Lock = SimLock
    threading.RLock = lambda *a, **k: SimLock(True)
    sys.path.insert(0, src)
    import gimpy as g
    if os.path.dirname(os.path.abspath(g.__file__)) != \
            os.path.join(src, 'gimpy'):
        raise SystemExit('wrong gimpy: %s' % g.__file__)
    gimpy = g
    graphmod = sys.modules['gimpy.graph']
    # seams
    io.open = builtins.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.close = sim_os_close
    os.mkdir = sim_os_mkdir
    os.remove = guard_remove(real.os_remove)
    os.unlink = guard_remove(real.os_unlink)
    subprocess.Popen = SimPopen
    time.time, time.monotonic, time.sleep = sim_time, sim_monotonic, sim_sleep
    time.perf_counter = time.process_time = sim_monotonic
    time.time_ns = lambda: int(sim_time() * 1e9)
    time.monotonic_ns = time.perf_counter_ns = lambda: int(
        sim_monotonic() * 1e9)
    os.urandom, os.getpid = sim_urandom, sim_getpid
    wrap_rendering(graphmod.Graph)


def enter_scratch(path):
    '''Give this process its own directory for all files it makes.'''
    global scratch, tmpdir, cwd
    scratch = os.path.abspath(path)
    tmpdir = os.path.join(scratch, 'tmp')
    cwd = os.path.join(scratch, 'cwd')
    os.makedirs(tmpdir)
    os.makedirs(cwd)
    os.chdir(cwd)
    tempfile.tempdir = tmpdir
    tempfile._name_sequence = Names()
    sys.stdin = io.StringIO('')
    base_fds.update(open_fds())
    sys.stdout = Router()


def wrap_rendering(cls):
    '''Note which graph is being rendered, and when.'''
    def wrap(name):
        orig = getattr(cls, name)

        def wrapper(self, *a, **k):
            c = active()
            if c is None:
                return orig(self, *a, **k)
            if not c.render:
                c.rsteps = 0
            c.render += 1
            c.dstack.append(self)
            rec = None
            if name == 'display':
                rec = {'via': 'display', 'mode': self.attr.get('display'),
                       'tex': self.attr.get('layout') == 'dot2tex'}
                c.fallback = False
                c.frames.append(rec)
                start = len(c.frames), len(c.rout), len(c.fired)
            exc = None
            try:
                return orig(self, *a, **k)
            except BaseException as x:
                exc = type(x).__name__
                raise
            finally:
                c.dstack.pop()
                c.render -= 1
                if rec is not None:
                    c.fallback = False
                    rec['exc'] = exc
                    if display_done is not None and c is active():
                        display_done(c, self, rec, c.frames[start[0]:],
                                     ''.join(c.rout[start[1]:]), exc,
                                     c.fired[start[2]:])
        wrapper.__name__ = name
        wrapper.__doc__ = orig.__doc__
        wrapper.__wrapped__ = orig
        setattr(cls, name, wrapper)
    for name in ('display', 'write', 'create'):
        wrap(name)


def set_libs(libs):
    '''Which optional libraries this run has.'''
    for name in ('PIL', 'MATPLOTLIB', 'XDOT', 'DOT2TEX'):
        if hasattr(graphmod, name + '_INSTALLED'):
            setattr(graphmod, name + '_INSTALLED',
                    bool(libs.get(name, True)))


def effective_libs(libs):
    '''What is in fact available: a flag the code no longer has cannot be
    switched off.'''
    return dict((n, bool(libs.get(n, True)) or
                 not hasattr(graphmod, n + '_INSTALLED'))
                for n in ('PIL', 'MATPLOTLIB', 'XDOT', 'DOT2TEX'))


def leftovers(expected=()):
    '''Temporary files that still exist, and files in the working directory
    nobody asked for.'''
    out = [os.path.join(cwd, f) for f in os.listdir(cwd)
           if f not in expected]
    for root, dirs, files in os.walk(tmpdir):
        out += [os.path.join(root, f) for f in files]
        if root != tmpdir:
            out.append(root)
    return sorted(os.path.relpath(p, scratch) for p in out)


def open_fds():
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            out.append((int(n), os.readlink('/proc/self/fd/' + n)))
        except OSError:
            continue
    return out


base_fds = set()


def fds():
    '''Descriptors opened since this execution began.'''
    return sorted((n, os.path.basename(t)) for n, t in open_fds()
                  if (n, t) not in base_fds and not t.endswith('/fd'))
