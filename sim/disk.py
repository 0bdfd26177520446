"""The boundary between marsh and the operating system, made faulty.

Files are real files in a scratch directory.  Every call that reaches them from
Python (builtin open, io.open, os.open/read/write/..., listdir, scandir, stat,
mkdir, rename, chdir) first passes here, where the plan of the run may let it
fail, transfer less than asked, list in another order, or have another process
change the directory at that very moment.  The buffering and the text layers of
Python above raw files are the real ones.

A plan is {'seed': n, 'p': {fault: probability}} or
{'explicit': [[step, k, fault], ...]}: the k-th call of a step is hit.  What was
drawn is recorded in .hits and replays as an explicit plan.
"""
import builtins
import errno
import io
import os
import random
import shutil

R = {}  # the real functions
for name in ('open', 'read', 'write', 'close', 'fsync', 'fdatasync', 'pread', 'pwrite', 'writev',
             'readv', 'listdir', 'scandir', 'stat', 'lstat', 'mkdir', 'rename', 'replace', 'chdir',
             'fchdir', 'getcwd', 'remove', 'unlink', 'rmdir', 'fdopen', 'truncate', 'ftruncate',
             'sendfile', 'symlink', 'link', 'access', 'makedirs', 'getcwdb', 'sync'):
    R[name] = getattr(os, name)
real_open = io.open

D = None  # the active disk

# fault -> the calls it can hit
HITS = {
    'open fails': ('open',),
    'short write': ('write',),
    'disk full': ('write',),
    'write error': ('write',),
    'interrupt in write': ('write',),
    'short read': ('read',),
    'read error': ('read',),
    'interrupt in read': ('read',),
    'close fails': ('close',),
    'sync fails': ('fsync',),
    'rename fails': ('rename',),
    'list fails': ('list',),
    'mkdir fails': ('mkdir',),
    'chdir fails': ('chdir',),
    'getcwd fails': ('getcwd',),
    'another process': ('open', 'read', 'stat', 'list', 'close', 'mkdir', 'chdir'),
}
HARD = {'open fails', 'disk full', 'write error', 'interrupt in write', 'read error',
        'interrupt in read', 'close fails', 'sync fails', 'rename fails', 'list fails',
        'mkdir fails', 'chdir fails', 'getcwd fails'}


class Interrupt(KeyboardInterrupt):
    pass


class Disk:
    def __init__(self, root, plan, act=None):
        self.root = os.path.realpath(root)
        self.act = act  # another process does something
        self.explicit = None
        self.p = plan.get('p', {})
        if 'explicit' in plan:
            self.explicit = {(a, b): f for a, b, f in plan['explicit']}
        self.rng = random.Random(plan.get('seed', 0))
        self.order = random.Random(plan.get('order', plan.get('seed', 0)))
        self.step = None
        self.k = 0
        self.on = False
        self.hits = []  # [step, k, fault]
        self.now = []  # faults of this step
        self.calls = 0
        self.trace = []
        self.fds = {}  # descriptors opened below root
        self.full = False
        self.spare = None  # calls that no fault may hit
        self.calm = False  # orders are still shuffled, but nothing fails or changes

    # -- control
    def begin(self, step, calm=False):
        self.calm = calm
        self.step = step
        self.k = 0
        self.now = []
        self.on = True
        self.full = False

    def end(self):
        self.on = False

    class paused:
        def __init__(self, disk):
            self.disk = disk

        def __enter__(self):
            self.was = self.disk.on
            self.disk.on = False

        def __exit__(self, *exc):
            self.disk.on = self.was

    def mine(self, path):
        if not self.on:
            return False
        if isinstance(path, int):
            return path in self.fds
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        # os.path functions that use no interposed call
        if not path.startswith('/'):
            path = R['getcwd']() + '/' + path
        path = os.path.normpath(path)
        return path == self.root or path.startswith(self.root + '/')

    # -- the decision
    def event(self, kind, path=None):
        """Another call reached the system. Returns the fault that hits it."""
        self.k += 1
        self.calls += 1
        self.at = (kind, path)
        if len(self.trace) < 2000:
            self.trace.append([self.step, self.k, kind])
        fault = None
        if self.calm:
            return None
        if self.explicit is not None:
            fault = self.explicit.get((self.step, self.k))
            if fault is not None and kind not in HITS[fault]:
                fault = None
        else:
            for f, p in self.p.items():
                # one draw for each fault, whatever becomes of it
                if self.rng.random() < p and kind in HITS[f] and fault is None:
                    fault = f
        if self.full and kind == 'write':
            raise OSError(errno.ENOSPC, 'No space left on device')
        if fault is not None and self.spare is not None:
            with Disk.paused(self):
                if self.spare(kind, path):
                    fault = None
        if fault == 'mkdir fails':
            # what is there already is found before anything can fail
            with Disk.paused(self):
                if os.path.lexists(path):
                    fault = None
        if fault is None:
            return None
        if fault == 'another process':
            with Disk.paused(self):
                if self.act is None or not self.act():
                    return None
        self.hits.append([self.step, self.k, fault])
        self.now.append(fault)
        if fault in ('open fails', 'write error', 'read error', 'close fails', 'sync fails',
                     'rename fails', 'list fails', 'mkdir fails', 'chdir fails', 'getcwd fails'):
            code = errno.EIO
            if fault in ('open fails', 'mkdir fails', 'chdir fails', 'list fails'):
                # any of the reasons there are
                code = (errno.EIO, errno.EACCES, errno.EMFILE)[self.calls % 3]
            if kind != 'close':
                raise OSError(code, os.strerror(code))
        if fault.startswith('interrupt'):
            raise Interrupt
        return fault

    def hard(self):
        """Faults of this step after which the call can not have succeeded."""
        return [f for f in self.now if f in HARD]

    # -- raw files
    def shorter(self, fault, n):
        if n > 1 and fault == 'short write':
            return max(1, (n * (1 + self.calls % 7)) // 8)
        if n > 1 and fault == 'short read':
            return max(1, (n * (self.calls % 3)) // 3) if n < 1 << 20 else 1 + self.calls % 11
        if fault == 'disk full':
            self.full = True
            return n // 2
        return n

    def installed(self):
        return _Installed(self)


class Raw(io.FileIO):
    """A raw file whose reads and writes can fail or be short."""

    def __init__(self, file, mode, closefd=True, opener=None):
        disk = self.disk = D
        if not isinstance(file, int):
            disk.event('open', file)
        super().__init__(file, mode, closefd, opener)
        if closefd:
            disk.fds[self.fileno()] = True

    def write(self, data):
        disk = self.disk
        if not disk.on:
            return super().write(data)
        fault = disk.event('write')
        view = memoryview(data).cast('B')
        n = len(view)
        m = disk.shorter(fault, n)
        if fault == 'disk full' and not m:
            raise OSError(errno.ENOSPC, 'No space left on device')
        return super().write(view[:m])

    def readinto(self, buf):
        disk = self.disk
        if not disk.on:
            return super().readinto(buf)
        fault = disk.event('read')
        view = memoryview(buf).cast('B')
        return super().readinto(view[:disk.shorter(fault, len(view))])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        chunks = []
        while True:
            chunk = self.read(8192)
            if not chunk:
                return b''.join(chunks)
            chunks.append(chunk)

    def close(self):
        if self.closed:
            return
        disk = self.disk
        fd = self.fileno() if self.closefd else None
        fault = None
        try:
            if disk.on and self.closefd:
                fault = disk.event('close')
        finally:
            disk.fds.pop(fd, None)
            super().close()
        if fault == 'close fails':
            raise OSError(errno.EIO, os.strerror(errno.EIO))


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if D is None or not D.mine(file):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    flags = set(mode)
    # mistakes in the arguments are reported by the real function
    if not mode or len(flags) != len(mode) or flags - set('axrwb+t') or \
            ('b' in flags and (flags & {'t'} or encoding or errors or newline)) or \
            len(flags & set('axrw')) != 1:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    rawmode = ''.join(c for c in 'xrwa+' if c in flags)
    raw = Raw(file, rawmode, closefd, opener)
    result = raw
    try:
        line = False
        if buffering == 1:
            buffering, line = -1, True
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            if 'b' in flags:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        if '+' in flags:
            buffer = io.BufferedRandom(raw, buffering)
        elif flags & set('awx'):
            buffer = io.BufferedWriter(raw, buffering)
        else:
            buffer = io.BufferedReader(raw, buffering)
        result = buffer
        if 'b' in flags:
            return buffer
        text = io.TextIOWrapper(buffer, io.text_encoding(encoding), errors, newline, line)
        result = text
        text.mode = mode
        return text
    except BaseException:
        result.close()
        raise


def on(kind, real):
    """Calls that take a path first."""
    def call(path, *args, **kwargs):
        d = D
        if d is not None and kwargs.get('dir_fd') is None and d.mine(path):
            d.event(kind, path)
        return real(path, *args, **kwargs)
    call.__name__ = real.__name__
    return call


def os_open(path, *args, **kwargs):
    d = D
    if d is None or kwargs.get('dir_fd') is not None or not d.mine(path):
        return R['open'](path, *args, **kwargs)
    d.event('open', path)
    fd = R['open'](path, *args, **kwargs)
    d.fds[fd] = True
    return fd


def os_close(fd):
    d = D
    if d is None or not d.mine(fd):
        return R['close'](fd)
    fault = d.event('close')
    d.fds.pop(fd, None)
    R['close'](fd)
    if fault:
        raise OSError(errno.EIO, os.strerror(errno.EIO))


def os_read(fd, n):
    d = D
    if d is None or not d.mine(fd):
        return R['read'](fd, n)
    return R['read'](fd, d.shorter(d.event('read'), n))


def os_write(fd, data):
    d = D
    if d is None or not d.mine(fd):
        return R['write'](fd, data)
    fault = d.event('write')
    view = memoryview(data).cast('B')
    m = d.shorter(fault, len(view))
    if fault == 'disk full' and not m:
        raise OSError(errno.ENOSPC, 'No space left on device')
    return R['write'](fd, view[:m])


def os_fsync(fd):
    d = D
    if d is not None and d.mine(fd):
        d.event('fsync')


def os_rename(real):
    def call(src, dst, **kwargs):
        d = D
        if d is not None and (d.mine(src) or d.mine(dst)):
            d.event('rename')
        return real(src, dst, **kwargs)
    return call


def os_listdir(path=None):
    d = D
    if d is None or not d.mine('.' if path is None else path):
        return R['listdir'](path)
    d.event('list', path)
    names = sorted(R['listdir'](path))
    d.order.shuffle(names)
    return names


class Listing:
    def __init__(self, entries):
        self.entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        self.entries = iter(())


def os_scandir(path=None):
    d = D
    if d is None or not d.mine('.' if path is None else path):
        return R['scandir'](path)
    d.event('list', path)
    with R['scandir'](path) as it:
        entries = sorted(it, key=lambda e: e.name)
    d.order.shuffle(entries)
    return Listing(entries)


def os_getcwd():
    d = D
    if d is not None and d.mine(R['getcwd']()):
        d.event('getcwd')
    return R['getcwd']()


PATCHES = {
    'open': os_open, 'close': os_close, 'read': os_read, 'write': os_write, 'fsync': os_fsync,
    'fdatasync': os_fsync, 'listdir': os_listdir, 'scandir': os_scandir,
    'stat': on('stat', R['stat']), 'lstat': on('stat', R['lstat']),
    'access': on('stat', R['access']), 'mkdir': on('mkdir', R['mkdir']),
    'rename': os_rename(R['rename']), 'replace': os_rename(R['replace']),
    'chdir': on('chdir', R['chdir']), 'fchdir': on('chdir', R['fchdir']),
    'getcwd': os_getcwd,
}


class _Installed:
    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        global D
        D = self.disk
        for name, fn in PATCHES.items():
            setattr(os, name, fn)
        builtins.open = io.open = sim_open
        return self.disk

    def __exit__(self, *exc):
        global D
        D = None
        for name in PATCHES:
            setattr(os, name, R[name])
        builtins.open = io.open = real_open


# --------------------------------------------------------------------------
# trees: {'name': 'text' | {...}}


def make_tree(path, tree):
    for name, x in tree.items():
        sub = os.path.join(path, name)
        if isinstance(x, dict):
            os.mkdir(sub)
            make_tree(sub, x)
        else:
            put(sub, x)


def put(path, text):
    with real_open(path, 'wb') as fp:
        fp.write(text.encode('utf-8', 'surrogatepass') if isinstance(text, str) else text)



def get(path):
    try:
        with real_open(path, 'rb') as fp:
            return fp.read()
    except OSError:
        return None


def fresh(path):
    shutil.rmtree(path, ignore_errors=True)
    R['mkdir'](path)
    return path
