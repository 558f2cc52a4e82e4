"""Native machine: ctypes on the harness shared object.  Buffers end at a guard page."""
import ctypes
import mmap as _mmap
import terms as T
from path import Witness
from machine import Violation, SkipPath
from llexec import Panic

PAGE = 4096
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]


class Native:
    sym = False

    def __init__(self, lib, w, cpu=None):
        self.lib = lib
        self.w = w
        self.cpu = cpu
        self.maps = []
        self.checks = 0
        lib.quiet()

    def close(self):
        for p, n in self.maps:
            _libc.munmap(p, n)
        self.maps = []

    def var(self, name, w, lo=None, hi=None):
        v = self.w.vars.get(name)
        if v is None:
            v = self.w.default(name, w)
            if hi is not None and v > hi:
                v = (lo or 0) + v % (hi - (lo or 0) + 1)
            if lo is not None and v < lo:
                v = lo
        if (hi is not None and v > hi) or (lo is not None and v < lo):
            raise SkipPath("witness outside the bounds")
        return v

    def byte(self, arr, idx):
        return self.w.arr(arr, idx)

    def data_bytes(self, name, n):
        return [self.w.arr(name, i) for i in range(n)]

    def assume(self, c):
        if not c:
            raise SkipPath("assumption")

    def branch(self, c):
        return bool(c)

    must = branch

    def concretize(self, t):
        return t

    def norm(self, t):
        return t

    def _alloc(self, n, align, fill=0xA5):
        total = (n + PAGE - 1) // PAGE * PAGE + 2 * PAGE
        p = _libc.mmap(None, total, 3, 0x22, -1, 0)
        if p in (None, ctypes.c_void_p(-1).value):
            raise MemoryError
        self.maps.append((p, total))
        ctypes.memset(p, fill, total)
        _libc.mprotect(p + total - PAGE, PAGE, 0)
        a = (p + total - PAGE - n) // align * align
        return a

    def buf(self, n, align=1, name="buf"):
        return self._alloc(n, align)

    def view(self, arr, off, n, name="input"):
        p = self._alloc(n, 1)
        if n:
            ctypes.memmove(p, bytes(self.w.arr(arr, (off + i) & T.MASK[64]) for i in range(n)), n)
        return p

    def opaque(self):
        pass

    def big(self, arr, pos, n, name="input"):
        import huge
        total = (n + PAGE - 1) // PAGE * PAGE + PAGE
        p = _libc.mmap(None, total, 3, 0x4022, -1, 0)
        if p in (None, ctypes.c_void_p(-1).value):
            raise MemoryError
        self.maps.append((p, total))
        _libc.mprotect(p + total - PAGE, PAGE, 0)
        q = p + total - PAGE - n
        b = huge.pattern(huge.phase(arr, pos), min(n, huge.PERIOD << 12))
        for k in range(0, n, max(1, len(b))):
            ctypes.memmove(q + k, b, min(len(b), n - k))
        return q

    def huge_digest(self, bs, v, par, total, key, arr, label):
        import huge
        want = huge.reference(v, par, total, key, arr)
        if want is not None:
            self.check_bytes(bs, want, label)

    def const_bytes(self, bs, name="bytes", align=1):
        p = self._alloc(len(bs), align)
        ctypes.memmove(p, bytes(bs), len(bs))
        return p

    def rd(self, p, n):
        return list(ctypes.string_at(p, n))

    def rdint(self, p, n):
        return int.from_bytes(ctypes.string_at(p, n), "little")

    def wr(self, p, bs):
        ctypes.memmove(p, bytes(bs), len(bs))

    def wrint(self, p, n, v):
        ctypes.memmove(p, int(v).to_bytes(n, "little"), n)

    def slices(self, prs):
        p = self.buf(16 * max(1, len(prs)), 8)
        for i, (a, n) in enumerate(prs):
            self.wrint(p + 16 * i, 8, a)
            self.wrint(p + 16 * i + 8, 8, n)
        return p

    def ptrs(self, ps):
        p = self.buf(8 * max(1, len(ps)), 8)
        for i, a in enumerate(ps):
            self.wrint(p + 8 * i, 8, a)
        return p

    def has(self, fn):
        try:
            getattr(self.lib, fn)
            return True
        except AttributeError:
            return False

    def call_ret(self, fn, *args):
        f = getattr(self.lib, fn)
        f.restype = ctypes.c_uint32
        return f(*[ctypes.c_uint64(a) for a in args])

    def call(self, fn, *args):
        if self.call_ret(fn, *args):
            raise Panic(fn)

    def panics(self, fn, *args):
        return self.call_ret(fn, *args) != 0

    def check_bytes(self, got, want, label):
        self.checks += 1
        if list(got) != list(want):
            raise Violation(label, None, "got %s want %s" % (bytes(got).hex(), bytes(want).hex()))

    def check_eq(self, got, want, w, label):
        self.checks += 1
        if got != want:
            raise Violation(label, None, "got %#x want %#x" % (got, want))

    def check(self, c, label):
        self.checks += 1
        if not c:
            raise Violation(label)

    def watch_secrets(self):
        pass

    def note(self, s):
        pass


class IO:
    failed = False


class NativeCli(Native):
    """runs the tool itself in a scratch directory; tools/shim.c makes its reads follow the schedule"""

    def __init__(self, where, w, cpu=None):
        self.where = where
        self.w = w
        self.cpu = cpu
        self.maps = []
        self.checks = 0

    def cli(self, args, files=(), stdin=None, nreads=0):
        import os
        import shutil
        import subprocess
        import tempfile
        d = tempfile.mkdtemp(prefix="cli-", dir=self.where)
        try:
            def content(f):
                return bytes(self.w.arr(f.arr, i) for i in range(f.size))
            for f in files:
                p = os.path.join(d.encode(), f.name)
                if f.isdir:
                    os.mkdir(p)
                elif not f.err:
                    with open(p, "wb") as h:
                        h.write(content(f))
            with open(os.path.join(d, ".stdin"), "wb") as h:
                if stdin is not None:
                    h.write(content(stdin))
            log = os.path.join(d, ".log")
            sched = ",".join("%d:%d" % (self.w.vars.get("rk%d" % i, 0), self.w.vars.get("rn%d" % i, 0)) for i in range(nreads))
            env = {"LD_PRELOAD": os.path.join(self.where, "shim.so"), "VERIF_READS": sched, "VERIF_LOG": log, "PATH": "/usr/bin:/bin"}
            with open(os.path.join(d, ".stdin"), "rb") as h:
                p = subprocess.run([bytes(a) for a in args], executable=os.path.join(self.where, "blake2"), cwd=d, env=env, stdin=h,
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            self.io = IO()
            if os.path.exists(log):
                with open(log) as h:
                    for l in h.read().split():
                        self.io.failed = True
                        for f in files:
                            if f.name.decode() == l:
                                f.failed = True
            return p.returncode & 0xFFFFFFFF, list(p.stdout)
        finally:
            shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- CPU profiles
# positions in std_detect's x86 feature bit set
FEATURE_BITS = {"sse3": 8, "ssse3": 9, "sse4.1": 10, "sse4.2": 11, "avx": 14, "avx2": 15}


def set_cpu(lib, so_path, cpu):
    """make the library's cached CPU feature set that of the profile (features can only be removed);
    returns False when that is impossible"""
    import subprocess
    out = subprocess.run(["nm", so_path], stdout=subprocess.PIPE, text=True).stdout
    sym = [l.split() for l in out.splitlines() if "std_detect" in l and l.rstrip().endswith("cache5CACHE")]
    anchor = [l.split() for l in out.splitlines() if l.rstrip().endswith(" T quiet")]
    if len(sym) != 1 or len(anchor) != 1:
        return False
    base = ctypes.cast(lib.quiet, ctypes.c_void_p).value - int(anchor[0][0], 16)
    # run the detection first
    o = (ctypes.c_uint64 * 1)()
    lib.b_degree(ctypes.byref(o))
    p = ctypes.cast(base + int(sym[0][0], 16), ctypes.POINTER(ctypes.c_uint64))
    if p[0] == 0:
        return False
    v = p[0]
    for f, b in FEATURE_BITS.items():
        if f not in cpu.allowed:
            v &= ~(1 << b)
        elif not v >> b & 1:
            return False
    p[0] = v
    return True


def main():
    """native.py LIB CPU JOBS.json: run the jobs (list of scenario/witness pairs); one result line each"""
    import json
    import sys
    sys.setrecursionlimit(100000)
    import cpu as C
    import runner
    so, cname, jobs = sys.argv[1:4]
    with open(jobs) as f:
        jobs = json.load(f)
    cli = so.endswith("/blake2")
    if cli:
        import os
        lib = os.path.dirname(so)
    else:
        lib = ctypes.CDLL(so)
    masked = True
    if cname != "-":
        masked = set_cpu(lib, so, C.BY_NAME[cname])
    print(json.dumps({"masked": masked}), flush=True)
    for k, (sd, wd) in enumerate(jobs):
        sc = runner.Scenario.from_json(sd)
        print(json.dumps({"start": k}), flush=True)
        m = (NativeCli if cli else Native)(lib, runner.wit_from(wd), C.BY_NAME[sc.cpu])
        try:
            runner.resolve_fn(sc.fn)(m, **sc.kw)
            r = {"res": "ok"}
        except SkipPath as e:
            r = {"res": "skip", "label": str(e)}
        except Violation as e:
            r = {"res": "violation", "label": e.label, "detail": e.detail}
        except Panic as e:
            r = {"res": "violation", "label": "unexpected panic", "detail": str(e.where)}
        r["checks"] = m.checks
        m.close()
        print(json.dumps(r), flush=True)


if __name__ == "__main__":
    main()
