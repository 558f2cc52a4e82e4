"""One scenario program, two machines: symbolic (over the LLVM IR) and native
(the same harness compiled to machine code, values taken from a witness)."""
import terms as T
from terms import N, eq, ule, concat
import llexec
from llexec import Panic, UB, Unsupported, Limit, Stop
import path
from path import Ctx, Inconclusive, Witness
import sweep


class Violation(Exception):
    second = None             # timing: a second witness, equal to the first in all public values

    def __init__(self, label, witness=None, detail=""):
        Exception.__init__(self, label)
        self.label = label
        self.witness = witness
        self.detail = detail


class SkipPath(Exception):
    """path is outside the bounds of the scenario"""


class Sym:
    sym = True

    def __init__(self, X, ctx, cpu, stats):
        self.X = X
        self.ctx = ctx
        self.cpu = cpu
        self.sw = None
        self.stats = stats
        self.sizes = {}
        self.checks = 0
        self.inputs = []

    # -------------------------------------------------- values
    def var(self, name, w, lo=None, hi=None):
        v = T.var(name, w)
        if hi is not None and hi != T.MASK[w]:
            self.assume(ule(w, v, hi))
        if lo:
            self.assume(ule(w, lo, v))
        return v

    def byte(self, arr, idx):
        return T.sel(arr, idx)

    def data_bytes(self, name, n):
        """n independent symbolic bytes"""
        return [T.sel(name, i) for i in range(n)]

    def assume(self, c):
        if type(c) is int:
            if not c:
                raise SkipPath("assumption")
            return
        self.ctx.assume(c)

    def branch(self, c):
        return self.ctx.branch(c)

    def must(self, c):
        return True if type(c) is int and c else (False if type(c) is int else self.ctx.must(c))

    def concretize(self, t):
        return self.ctx.concretize(t)

    def norm(self, t):
        return self.ctx.norm(t)

    # -------------------------------------------------- memory
    def buf(self, n, align=1, name="buf"):
        return self.X.new(n, align, name).base

    def view(self, arr, off, n, name="input"):
        return self.X.new_arr(n, arr, off, name).base

    # inputs beyond 2^32 bytes (huge.py)
    def opaque(self):
        import huge
        self.op = huge.Opaque(self)

    def big(self, arr, pos, n, name="input"):
        hi = n if type(n) is int else self.ctx.range(n, 1 << 40)[1]
        return self.X.new_huge(n, hi, arr, pos, name).base

    def huge_digest(self, bs, v, par, total, key, arr, label):
        self.op.digest(bs, v, par, total, key, arr, label)

    def const_bytes(self, bs, name="bytes", align=1):
        o = self.X.new(len(bs), align, name, None, True)
        for i, b in enumerate(bs):
            self.X.set_byte(o, i, b)
        return o.base

    def _obj(self, p):
        return self.X.objs[p >> llexec.SH]

    def rd(self, p, n):
        X = self.X
        o, off = X.resolve(p, n, 1)
        if type(off) is int:
            return [X.rd(o, off + i, 1) for i in range(n)]
        return [X.rd_sym(o, T.add(64, off, i), 1) for i in range(n)]

    def rdint(self, p, n):
        return self.X.load_scalar(p, n, 8 * n, 1)

    def wr(self, p, bs):
        o, off = self.X.resolve(p, len(bs), 1, True)
        for i, b in enumerate(bs):
            self.X.set_byte(o, off + i, b)

    def wrint(self, p, n, v):
        self.X.store(p, ("i", 8 * n), v, 1)

    def slices(self, prs):
        p = self.buf(16 * max(1, len(prs)), 8, "slices")
        for i, (a, n) in enumerate(prs):
            self.wrint(p + 16 * i, 8, a)
            self.wrint(p + 16 * i + 8, 8, n)
        return p

    def ptrs(self, ps):
        p = self.buf(8 * max(1, len(ps)), 8, "pointers")
        for i, a in enumerate(ps):
            self.wrint(p + 8 * i, 8, a)
        return p

    def has(self, fn):
        X = self.X
        return X.m.aliases.get("@" + fn, "@" + fn) in X.m.fns

    def call(self, fn, *args):
        r = self.X.dispatch("@" + fn)(list(args))
        if type(r) is not int or r != 0:
            raise Panic(fn)

    def call_ret(self, fn, *args):
        return self.X.dispatch("@" + fn)(list(args))

    def panics(self, fn, *args):
        """does the call panic?  (forks inside; the caller's state is as left by the call)"""
        try:
            self.call(fn, *args)
            return False
        except Panic:
            return True

    # -------------------------------------------------- the command line tool
    def cli(self, args, files=(), stdin=None, nreads=0):
        """runs the tool's main(); (exit code, bytes on stdout).  args: byte lists; files: libc.File; the first nreads
        reads of input answer what the variables rk<i> (kind) and rn<i> (size) say"""
        import libc
        X = self.X

        def schedule(k, f, pos, n):
            left = T.sub(64, f.size, pos)
            kind = self.concretize(self.var("rk%d" % k, 8, 0, 3)) if k < nreads else 0
            if kind == 2:
                return libc.EINTR, None
            if kind == 3:
                return libc.EIO, None
            if kind == 1:
                if not self.branch(T.ult(64, 0, left)):
                    raise SkipPath("nothing left to read")
                r = self.var("rn%d" % k, 64, 1)
                self.assume(T.ule(64, r, left))
                self.assume(T.ule(64, r, n))
                return 0, r
            if self.branch(T.ult(64, left, n)):
                return 0, left
            return 0, n
        P = libc.Posix(X, files, stdin, schedule)
        ps = []
        for a in args:
            p = self.const_bytes(list(a) + [0], "argument")
            X.objs[p >> llexec.SH].ro = False
            ps.append(p)
        av = self.ptrs(ps + [0])
        self.io = P
        try:
            code = X.dispatch("@main")([len(args), av])
        except libc.Exit as e:
            code = e.code
        except Panic as e:
            code = 101
        return code, P.out[1]

    # -------------------------------------------------- obligations
    def _sweeper(self):
        if self.sw is None or self.sw.pclen != len(self.ctx.pc):
            self.sw = sweep.Sweeper(self.ctx, stats=self.stats)
            self.sw.pclen = len(self.ctx.pc)
        return self.sw

    def check_bytes(self, got, want, label):
        if len(got) != len(want):
            raise Violation(label + ": length differs", self.ctx._model())
        self.checks += 1
        # identical bytes need no query; the rest is compared in the widest words available
        pairs = []
        i = 0
        n = len(got)
        while i < n:
            if got[i] is want[i] or (type(got[i]) is int and got[i] == want[i]):
                self.stats.structural += 1
                i += 1
                continue
            for step in (8, 4, 1):
                if i % step == 0 and i + step <= n:
                    break
            g = concat([(x, 8) for x in got[i:i + step]])
            w = concat([(x, 8) for x in want[i:i + step]])
            pairs.append((g, w, 8 * step))
            i += step
        self.prove(pairs, label)

    def check_eq(self, got, want, w, label):
        self.checks += 1
        self.prove([(got, want, w)], label)

    def prove(self, pairs, label):
        try:
            self._sweeper().prove(pairs)
        except sweep.Diff as d:
            raise Violation(label, d.w, "pair %d" % d.k)

    def check(self, c, label):
        """c must hold on this path"""
        self.checks += 1
        if type(c) is int:
            if not c:
                raise Violation(label, self.ctx._model())
            return
        if not self.ctx.must(c):
            raise Violation(label, self.ctx.find(T.bnot1(c)))

    def watch_secrets(self):
        """from here on no branch, address or length may depend on the contents of a symbolic array"""
        self.ctx.secret_hook = self._secret

    def _secret(self, c, kind, X):
        if type(c) is int or not secret(c):
            return
        self.checks += 1
        hook, self.ctx.secret_hook = self.ctx.secret_hook, None
        try:
            p = self._two(c)
            if p is None:
                return
        finally:
            self.ctx.secret_hook = hook
        v = Violation("%s depends on secret data" % kind, p[0], "in %s" % (X.where() if X is not None else self.X.where()))
        v.second = p[1]
        raise v

    def _two(self, c):
        """two witnesses of the path condition that agree on every variable and give c different values"""
        pc = self.ctx.pc
        base = self.ctx._model()
        seen = {}
        for seed in (0, 1, 2, 3, 5, 8):
            w = Witness(dict(base.vars), {}, seed) if seed else Witness(dict(base.vars), {}, 0)
            if not all(w.value(x) for x in pc):
                continue
            v = w.value(c)
            seen.setdefault(v, w)
            if len(seen) > 1:
                a, b = list(seen.values())[:2]
                return a, b
        # the solver looks for a value different from the one seen
        if not seen:
            seen[base.value(c)] = base
        v, a = next(iter(seen.items()))
        w = self.ctx._check(T.bnot1(T.eq(c.w, c, v)))
        if w is None:
            return None
        b = Witness(dict(a.vars), w.arrs, 0)
        if all(b.value(x) for x in pc) and b.value(c) != v:
            return a, b
        raise Inconclusive("secret dependence: the two models differ in public values")

    def note(self, s):
        pass


def secret(t):
    """does the term depend on array contents?"""
    for n in T.topo([t]):
        if n.op == "sel":
            return True
    return False
