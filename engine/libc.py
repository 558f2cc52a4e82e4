"""A small model of the C library and kernel for running the command line tool's `main` symbolically.

Files are symbolic arrays or concrete bytes; `read` returns what the scenario's fault schedule says.  Everything else
(signals, stack guards, thread bookkeeping at start-up) answers the uninteresting success value.
"""
import llparse as L
import terms as T
from llexec import Panic, UB, Unsupported, Stop

ENOENT, EINTR, EIO, EBADF, EACCES, EISDIR, EINVAL, ENOSYS, ENODEV = 2, 4, 5, 9, 13, 21, 22, 38, 19


class Exit(Stop):
    def __init__(self, code):
        self.code = code


class File:
    """`size` (int or term) bytes of the array `arr`; err: errno of open, or None"""

    def __init__(self, name, size=0, arr=None, err=None, isdir=False):
        self.name = name
        self.size = size
        self.arr = arr
        self.shift = 0
        self.err = err
        self.isdir = isdir
        self.mode = 0o040755 if isdir else 0o100644
        self.failed = False       # a read reported an error other than an interruption


class Posix:
    def __init__(self, X, files, stdin=None, schedule=None, isatty=0):
        self.X = X
        self.files = {f.name: f for f in files}
        self.fds = {}
        self.nextfd = 3
        if stdin is not None:
            self.fds[0] = [stdin, 0]
        self.out = {1: [], 2: []}
        self.schedule = schedule      # (k-th read of the file, File, position, count) -> errno (int) or byte count
        self.nreads = 0
        self.failed = False
        self.errno_p = None
        self.maps = {}
        self.install()

    def install(self):
        X = self.X
        for n in dir(self):
            if n.startswith("c_"):
                f = getattr(self, n)
                X.ext["@" + n[2:]] = lambda X, a, f=f: f(*a)

    # ------------------------------------------------------------ helpers
    def err(self, e, r=-1 & T.MASK[32]):
        X = self.X
        X.store(self.c___errno_location(), ("i", 32), e, 4)
        return r

    def cstr(self, p):
        n = self.X.strlen(p)
        return bytes(self.X.ctx.concretize(self.X.load_scalar(p + i, 1, 8, 1)) for i in range(n))

    def conc(self, x):
        return x if type(x) is int else self.X.ctx.concretize(x)

    # ------------------------------------------------------------ calls
    def c___errno_location(self):
        if self.errno_p is None:
            self.errno_p = self.X.new(4, 4, "errno", [0] * 4).base
        return self.errno_p

    def c_write(self, fd, p, n):
        fd = self.conc(fd)
        n = self.conc(n)
        if fd not in self.out:
            return self.err(EBADF, T.MASK[64])
        X = self.X
        o, off = X.resolve(p, max(n, 1), 1) if n else (None, 0)
        self.out[fd].extend(X.rd(o, off + i, 1) if type(off) is int else X.rd_sym(o, T.add(64, off, i), 1) for i in range(n))
        return n

    def c_writev(self, fd, iov, n):
        t = 0
        for i in range(self.conc(n)):
            k = self.X.load_scalar(iov + 16 * i + 8, 8, 64, 8)
            if type(k) is int and k == 0:
                continue
            t += self.c_write(fd, self.X.load_scalar(iov + 16 * i, 8, 64, 8), k)
        return t

    def c_read(self, fd, p, n):
        fd = self.conc(fd)
        X = self.X
        if fd not in self.fds:
            return self.err(EBADF, T.MASK[64])
        f, pos = self.fds[fd]
        if f.isdir:
            return self.err(EISDIR, T.MASK[64])
        k = self.nreads
        self.nreads += 1
        e, r = self.schedule(k, f, pos, n) if self.schedule else (0, None)
        if e:
            if e != EINTR:
                f.failed = self.failed = True
            return self.err(e, T.MASK[64])
        left = T.sub(64, f.size, pos)
        if r is None:
            r = T.ite(64, T.ult(64, left, n), left, n)
        # copy r bytes
        if type(r) is not int:
            r = X.ctx.norm(r)
        o = X.new_arr(f.size, f.arr, f.shift, "file contents", 1)
        X.memcpy(p, T.add(64, o.base, pos), r)
        X.free(o)
        self.fds[fd][1] = T.add(64, pos, r)
        return r

    def c_open64(self, path, flags, mode=0):
        nm = self.cstr(path)
        f = self.files.get(nm)
        if f is None:
            return self.err(ENOENT)
        if f.err:
            return self.err(f.err)
        fd = self.nextfd
        self.nextfd += 1
        self.fds[fd] = [f, 0]
        return fd

    c_open = c_open64

    def c_close(self, fd):
        self.fds.pop(self.conc(fd), None)
        return 0

    def _stat(self, f, buf):
        X = self.X
        X.memset(buf, 0, 144)
        X.store(buf + 24, ("i", 32), f.mode, 1)
        X.store(buf + 48, ("i", 64), f.size, 1)
        X.store(buf + 16, ("i", 64), 1, 1)
        X.store(buf + 56, ("i", 64), 4096, 1)
        return 0

    def c_fstat64(self, fd, buf):
        fd = self.conc(fd)
        if fd not in self.fds:
            return self.err(EBADF)
        return self._stat(self.fds[fd][0], buf)

    def c_stat64(self, path, buf):
        f = self.files.get(self.cstr(path))
        if f is None:
            return self.err(ENOENT)
        return self._stat(f, buf)

    def c_statx(self, *a):
        return self.err(ENOSYS)

    def c_lseek64(self, fd, off, wh):
        fd = self.conc(fd)
        if fd not in self.fds:
            return self.err(EBADF, T.MASK[64])
        f, pos = self.fds[fd]
        wh = self.conc(wh)
        b = {0: 0, 1: pos, 2: f.size}[wh]
        self.fds[fd][1] = T.add(64, b, off)
        return self.fds[fd][1]

    def c_mmap(self, addr, n, prot, flags, fd, off):
        fd = self.conc(fd)
        X = self.X
        if fd == T.MASK[32]:
            return X.new(self.conc(n), 4096, "anonymous map", [0] * self.conc(n)).base
        if fd not in self.fds:
            return self.err(EBADF, T.MASK[64])
        f = self.fds[fd][0]
        if X.ctx.branch(T.eq(64, n, 0)):
            return self.err(EINVAL, T.MASK[64])
        off = self.conc(off)
        if off % 4096:
            return self.err(EINVAL, T.MASK[64])
        if f.mode & 0o170000 != 0o100000:
            return self.err(ENODEV, T.MASK[64])
        # bytes past the end of the file are not readable in this model (the kernel gives zeros up to the page's end)
        size = T.sub(64, f.size, off)
        o = X.new_arr(size, f.arr, T.add(64, f.shift, off), "memory map", 4096)
        self.maps[o.base] = o
        return o.base

    c_mmap64 = c_mmap

    def c_munmap(self, p, n):
        o = self.maps.pop(p, None) if type(p) is int else None
        if o is not None:
            self.X.free(o)
        return 0

    def c_sysconf(self, k):
        return {30: 4096, 84: 1, 83: 1}.get(self.conc(k), T.MASK[64])

    def c_exit(self, code):
        raise Exit(self.conc(code))

    c__exit = c_exit

    def c_getrandom(self, p, n, fl):
        self.X.memset(p, 0x5A, n)
        return n

    def c_gettid(self):
        return 1

    def c_isatty(self, fd):
        return 0

    def c_getenv(self, p):
        return 0

    def c_poll(self, p, n, t):
        return 0

    def c_signal(self, *a):
        return 0

    def c_sigaction(self, sig, act, old):
        if type(old) is not int or old:
            self.X.memset(old, 0, 152)
        return 0

    def c_sigaltstack(self, ss, old):
        if type(old) is not int or old:
            self.X.memset(old, 0, 24)
        return 0

    def c_mprotect(self, *a):
        return 0

    def c_fcntl(self, fd, cmd, *a):
        return 0

    def c_getauxval(self, k):
        return 0

    def c_pthread_self(self):
        return 1

    def c_pthread_getattr_np(self, *a):
        return 1

    def c_pthread_attr_destroy(self, *a):
        return 0

    def c__Unwind_Backtrace(self, *a):
        return 0

    def c_dl_iterate_phdr(self, *a):
        return 0

    def c___cxa_thread_atexit_impl(self, *a):
        return 0

    def c___xpg_strerror_r(self, e, buf, n):
        e = self.conc(e)
        s = ("error %d" % e).encode() + b"\0"
        for i, b in enumerate(s):
            self.X.store(buf + i, ("i", 8), b, 1)
        return 0
