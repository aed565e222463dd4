"""A simulated disk over a scratch directory.

Every operation that changes a file below the scratch directory is counted and
can fail, be cut short, or be the moment at which the process is killed or the
power fails.  The files themselves are real files in the scratch directory (so
that any way of writing them works); next to them the disk keeps what would
survive a power failure:

* namespace operations (create, rename, link, unlink) become durable in order;
  at a power failure some prefix of those since the last quiet point is kept;
* data of a file is durable up to its last fsync; of what was written since then
  any part may be there (nothing, a prefix, everything, or blocks of zeros).
"""
import builtins
import errno
import io
import os
import tempfile

R_open = builtins.open
R = {n: getattr(os, n) for n in
     ('open', 'write', 'close', 'fsync', 'fdatasync', 'replace', 'rename', 'remove',
      'unlink', 'truncate', 'ftruncate', 'link', 'symlink', 'pwrite', 'sendfile', 'writev')}


class Killed(BaseException):
    """The simulated process is dead: nothing it does has any effect."""


DISK = None


class Disk:
    def __init__(self, ctx, root=None):
        self.ctx = ctx
        self.root = root or tempfile.mkdtemp(prefix='simdisk')
        self.fault = None
        self.choices = [0]
        self.pos = 0
        self.dead = False
        self.fired = None
        self.failed_remove = False
        self.n = 0                  # operations since the last arm()
        self.watch = None           # path whose content is sampled at every instant
        self.seen = []              # distinct contents of it
        self.fds = {}               # fd -> inode
        self.raws = []
        self.ino = 0
        self.names = {}             # path -> inode / ('link', target)
        self.data = {}              # inode -> durable content
        self.pending = {}           # inode -> list of (offset, bytes) / ('trunc', size)
        self.ns = []                # namespace operations since the quiet point
        self.durable = {}           # path -> inode / link, at the quiet point
        self.trace = []

    # ---------------------------------------------------------- control
    def install(self):
        global DISK
        DISK = self
        builtins.open = io.open = sim_open
        for n in R:
            setattr(os, n, globals()['sim_os_open' if n == 'open' else 'sim_' + n])

    def uninstall(self):
        global DISK
        DISK = None
        builtins.open = io.open = R_open
        for n, f in R.items():
            setattr(os, n, f)

    def close(self):
        self.uninstall()
        self.reap()
        for dirpath, dirs, files in os.walk(self.root, topdown=False):
            for f in files:
                R['unlink'](os.path.join(dirpath, f))
            for d in dirs:
                p = os.path.join(dirpath, d)
                R['unlink'](p) if os.path.islink(p) else os.rmdir(p)
        os.rmdir(self.root)

    def arm(self, fault, choices=(0,)):
        self.fault = dict(fault) if fault else None
        self.fired = None
        self.failed_remove = False
        self.choices, self.pos = list(choices) or [0], 0
        self.n = 0
        self.trace = []
        self.seen = []

    def choose(self, n):
        v = self.choices[self.pos % len(self.choices)]
        self.pos += 1
        return v % n

    def quiet(self):
        """Everything so far has reached the disk (time has passed)."""
        for ino, p in self.pending.items():
            self.data[ino] = apply(self.data.get(ino, b''), p)
        self.pending = {}
        self.ns = []
        self.durable = dict(self.names)

    def reap(self):
        """The process is gone: its descriptors are closed, its buffers lost."""
        self.dead = True
        for fd in list(self.fds):
            try:
                R['close'](fd)
            except OSError:
                pass
        self.fds = {}
        for r in self.raws:
            r.gone = True
        self.raws = []

    def reboot(self):
        """A new process starts (after a kill or a power failure)."""
        self.reap()
        self.dead = False

    # ---------------------------------------------------------- instants
    def look(self):
        if self.watch is None:
            return
        try:
            with R_open(self.watch, 'rb') as f:
                c = f.read()
        except OSError:
            c = None
        if not self.seen or self.seen[-1] != c:
            self.seen.append(c)

    def op(self, kind, name):
        """A counted operation begins.  Returns a fault that cuts it short."""
        if self.dead:
            raise Killed('dead')
        k, self.n = self.n, self.n + 1
        self.trace.append((kind, os.path.basename(str(name))))
        self.ctx.ev('disk', kind, k)
        self.look()
        f = self.fault
        if f is None or f['at'] != k and not (f.get('sticky') and k > f['at']):
            return None
        if f['kind'] == 'short':
            if kind != 'write':
                return None
            self.ctx.fault('disk-short-write')
            return f
        if f['kind'] in ('kill', 'power'):
            self.fault = None
            if f.get('torn') and kind == 'write':
                return f
            self.die(f['kind'])
        if f['kind'] == 'interrupt':
            self.fault = None
            self.fired = KeyboardInterrupt('injected')
            self.ctx.fault('interrupt-at-' + kind)
            raise self.fired
        # an error of the disk
        if f.get('only') and f['only'] != kind:
            return None
        if not f.get('sticky'):
            self.fault = None
        code = getattr(errno, f.get('errno', 'EIO'))
        if kind == 'write' and f.get('part'):
            return f
        self.fail(kind, code)

    def fail(self, kind, code):
        self.ctx.fault('disk-error-' + kind)
        if kind == 'unlink':
            self.failed_remove = True
        e = OSError(code, os.strerror(code) + ' (injected)')
        self.fired = self.fired or e
        raise e

    def die(self, kind):
        self.ctx.fault('killed' if kind == 'kill' else 'power-failure')
        self.fired = Killed(kind)
        self.dead = True
        self.look()
        if kind == 'power':
            self.power_failure()
        raise self.fired

    def power_failure(self):
        """Replace the directory by something that could have survived."""
        keep = self.choose(len(self.ns) + 1)
        names = dict(self.durable)
        for what, a, b in self.ns[:keep]:
            if what == 'create':
                names[a] = b
            elif what == 'rename':
                if a in names:
                    names[b] = names.pop(a)
            elif what == 'unlink':
                names.pop(a, None)
            elif what == 'link':
                names[a] = b
        content = {}
        for ino in {v for v in names.values() if not isinstance(v, tuple)}:
            c = self.data.get(ino, b'')
            p = self.pending.get(ino, [])
            how = self.choose(5)
            if how == 0:
                p = []
            elif how == 1:
                p = p[:self.choose(len(p) + 1)]
            elif how == 2 and p:
                # the last one torn
                p = p[:self.choose(len(p)) + 1]
                if p[-1][0] != 'trunc':
                    o, d = p[-1]
                    p = p[:-1] + [(o, d[:self.choose(len(d) + 1)])]
            elif how == 3 and p:
                # the length grew, the blocks were not written
                p = [x if x[0] == 'trunc' else (x[0], b'\0' * len(x[1])) for x in p]
            content[ino] = apply(c, p)
        self.ctx.ev('power', keep, len(self.ns), sorted(
            (os.path.basename(k), len(content.get(v, b'')) if not isinstance(v, tuple) else 'l')
            for k, v in names.items()))
        for dirpath, dirs, files in os.walk(self.root):
            for f in files:
                R['unlink'](os.path.join(dirpath, f))
        for path, v in names.items():
            if isinstance(v, tuple):
                if not os.path.lexists(path):
                    R['symlink'](v[1], path)
            else:
                with R_open(path, 'wb') as f:
                    f.write(content[v])
        self.names = names
        self.data = content
        self.pending, self.ns = {}, []
        self.durable = dict(names)

    # ---------------------------------------------------------- bookkeeping
    def mine(self, path):
        if isinstance(path, int) or path is None:
            return None
        p = os.path.abspath(os.fsdecode(path))
        real = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        return real if real.startswith(os.path.realpath(self.root) + os.sep) else None

    def follow(self, p):
        """The name a path that is opened refers to (last component resolved)."""
        return os.path.realpath(p)

    def inode(self, p, create=True):
        v = self.names.get(p)
        if v is None or isinstance(v, tuple):
            if not create:
                return None
            self.ino += 1
            v = self.names[p] = self.ino
            self.ns.append(('create', p, v))
        return v

    def wrote(self, ino, offset, data):
        self.pending.setdefault(ino, []).append((offset, bytes(data)))

    def truncated(self, ino, size):
        self.pending.setdefault(ino, []).append(('trunc', size))

    def synced(self, ino):
        self.data[ino] = apply(self.data.get(ino, b''), self.pending.pop(ino, []))

    def listing(self):
        out = []
        for dirpath, dirs, files in os.walk(self.root):
            out += [os.path.join(dirpath, f) for f in files]
        return sorted(out)

    # ---------------------------------------------------------- operations
    def open_fd(self, path, flags, mode=0o777):
        p = self.follow(self.mine(path))
        writing = flags & (os.O_WRONLY | os.O_RDWR)
        exists = os.path.exists(p)
        if writing:
            self.op('open', p)
            if flags & os.O_EXCL and flags & os.O_CREAT and os.path.lexists(path):
                raise FileExistsError(errno.EEXIST, 'File exists', path)
        fd = R['open'](p, flags, mode)
        if writing:
            ino = self.inode(p)
            if flags & os.O_TRUNC and exists:
                self.truncated(ino, 0)
            self.fds[fd] = ino
            self.look()
        return fd

    def write(self, fd, data, offset=None):
        ino = self.fds[fd]
        f = self.op('write', fd)
        data = bytes(data)
        if offset is None:
            pos = os.lseek(fd, 0, os.SEEK_CUR)
        else:
            pos = offset
        if f:
            part = data[:max(0, int(len(data) * f.get('frac', .5)))]
            if f['kind'] == 'short':
                part = part or data[:1]
        else:
            part = data
        if part:
            n = R['write'](fd, part) if offset is None else R['pwrite'](fd, part, offset)
            self.wrote(ino, pos, part)
        self.look()
        if f and f['kind'] in ('kill', 'power'):
            self.die(f['kind'])
        if f and f['kind'] == 'error':
            self.fail('write', getattr(errno, f.get('errno', 'EIO')))
        return len(part)

    def fsync(self, fd):
        self.op('fsync', fd)
        if fd in self.fds:
            self.synced(self.fds[fd])

    def close_fd(self, fd):
        if self.dead:
            self.fds.pop(fd, None)
            R['close'](fd)
            raise Killed('dead')
        try:
            self.op('close', fd)
        finally:
            # the descriptor is gone even if close() reports an error
            if not self.dead:
                self.fds.pop(fd, None)
                R['close'](fd)

    def rename(self, a, b):
        pa, pb = self.mine(a), self.mine(b)
        self.op('rename', pb or pa)
        R['rename'](a, b)
        if pa and pb:
            v = self.names.pop(pa, None)
            if v is not None:
                self.names[pb] = v
            self.ns.append(('rename', pa, pb))
        self.look()

    def unlink(self, p):
        q = self.mine(p)
        self.op('unlink', q)
        R['unlink'](p)
        self.names.pop(q, None)
        self.ns.append(('unlink', q, None))
        self.look()


def apply(content, writes):
    c = bytearray(content)
    for w in writes:
        if w[0] == 'trunc':
            if len(c) > w[1]:
                del c[w[1]:]
            else:
                c.extend(b'\0' * (w[1] - len(c)))
        else:
            o, d = w
            if len(c) < o:
                c.extend(b'\0' * (o - len(c)))
            c[o:o + len(d)] = d
    return bytes(c)


# ------------------------------------------------------------ file objects
class SimRaw(io.RawIOBase):
    def __init__(self, disk, fd, name, mode, closefd=True):
        self._disk, self._fd, self.name = disk, fd, name
        self.mode = mode
        self.gone = False
        self._closefd = closefd
        disk.raws.append(self)

    def fileno(self):
        return self._fd

    def readable(self):
        return 'r' in self.mode or '+' in self.mode

    def writable(self):
        return 'r' not in self.mode or '+' in self.mode

    def seekable(self):
        return True

    def write(self, b):
        if self.gone:
            raise Killed('dead')
        return self._disk.write(self._fd, b)

    def readinto(self, b):
        d = os.read(self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def seek(self, pos, whence=0):
        if self.gone:
            raise Killed('dead')
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        if self.gone:
            raise Killed('dead')
        return os.lseek(self._fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        sim_ftruncate(self._fd, self.tell() if size is None else size)
        return size

    def close(self):
        if self.closed:
            return
        super().close()
        if self.gone or not self._closefd:
            return
        self._disk.close_fd(self._fd)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    d = DISK
    writing = any(c in mode for c in 'wax+')
    known = isinstance(file, int) and not isinstance(file, bool) and d and file in d.fds
    if d is None or not (known or (writing and not isinstance(file, int) and
                                   (opener is not None or d.mine(file)))):
        if d is not None and d.dead and not isinstance(file, int) and d.mine(file):
            raise Killed('dead')
        return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if known:
        fd = file
    else:
        flags = (os.O_RDWR if '+' in mode else os.O_WRONLY) | os.O_CLOEXEC
        if 'w' in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        elif 'a' in mode:
            flags |= os.O_CREAT | os.O_APPEND
        elif 'x' in mode:
            flags |= os.O_CREAT | os.O_EXCL
        if opener is not None:
            fd = opener(file, flags)
            if fd not in d.fds:
                return R_open(fd, mode, buffering, encoding, errors, newline, True)
        else:
            fd = d.open_fd(file, flags, 0o666)
    raw = SimRaw(d, fd, file, mode.replace('b', '').replace('t', ''), closefd)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if 'b' in mode:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline)


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    d = DISK
    if d is not None and dir_fd is None and d.mine(path):
        return d.open_fd(path, flags, mode)
    return R['open'](path, flags, mode, dir_fd=dir_fd)


def sim_write(fd, data):
    if DISK is not None and fd in DISK.fds:
        return DISK.write(fd, data)
    return R['write'](fd, data)


def sim_writev(fd, bufs):
    if DISK is not None and fd in DISK.fds:
        return DISK.write(fd, b''.join(bytes(b) for b in bufs))
    return R['writev'](fd, bufs)


def sim_pwrite(fd, data, offset):
    if DISK is not None and fd in DISK.fds:
        return DISK.write(fd, data, offset)
    return R['pwrite'](fd, data, offset)


def sim_close(fd):
    if DISK is not None and fd in DISK.fds:
        return DISK.close_fd(fd)
    return R['close'](fd)


def sim_fsync(fd):
    if hasattr(fd, 'fileno'):
        fd = fd.fileno()
    if DISK is not None:
        return DISK.fsync(fd)
    return R['fsync'](fd)


sim_fdatasync = sim_fsync


def sim_replace(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    d = DISK
    if d is not None and (d.mine(src) or d.mine(dst)):
        return d.rename(src, dst)
    return R['replace'](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)


sim_rename = sim_replace


def sim_unlink(path, *, dir_fd=None):
    d = DISK
    if d is not None and dir_fd is None and d.mine(path):
        return d.unlink(path)
    return R['unlink'](path, dir_fd=dir_fd)


sim_remove = sim_unlink


def sim_ftruncate(fd, size):
    d = DISK
    if d is not None and fd in d.fds:
        d.op('truncate', fd)
        R['ftruncate'](fd, size)
        d.truncated(d.fds[fd], size)
        d.look()
        return None
    return R['ftruncate'](fd, size)


def sim_truncate(path, size):
    d = DISK
    if d is not None and not isinstance(path, int) and d.mine(path):
        p = d.follow(d.mine(path))
        d.op('truncate', p)
        R['truncate'](p, size)
        d.truncated(d.inode(p), size)
        d.look()
        return None
    if isinstance(path, int):
        return sim_ftruncate(path, size)
    return R['truncate'](path, size)


def sim_link(src, dst, **k):
    d = DISK
    if d is not None and d.mine(dst):
        d.op('link', d.mine(dst))
        R['link'](src, dst, **k)
        v = d.names.get(d.mine(src))
        d.names[d.mine(dst)] = v
        d.ns.append(('link', d.mine(dst), v))
        return None
    return R['link'](src, dst, **k)


def sim_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    d = DISK
    if d is not None and d.mine(dst):
        d.op('link', d.mine(dst))
        R['symlink'](src, dst)
        d.names[d.mine(dst)] = ('link', src)
        d.ns.append(('link', d.mine(dst), ('link', src)))
        return None
    return R['symlink'](src, dst, target_is_directory, dir_fd=dir_fd)


def sim_sendfile(out, src, offset, count, *a, **k):
    if DISK is not None and out in DISK.fds:
        raise OSError(errno.ENOTSOCK, 'simulated file')
    return R['sendfile'](out, src, offset, count, *a, **k)
