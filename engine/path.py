"""Path contexts: path condition, feasibility, models, forking by re-execution."""
import random
import zlib
import z3
import terms as T
from terms import N, eq, ult, sub, add, extract, concat

RLIMIT = 40_000_000
Z = None          # per-process translation context


def zctx():
    global Z
    if Z is None:
        Z = T.Z3Ctx()
    return Z


class Inconclusive(Exception):
    pass


SLOW = 0
STATS = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "time": 0.0}


def zcheck(s, *a):
    import time
    t = time.perf_counter()
    r = s.check(*a)
    t = time.perf_counter() - t
    STATS["time"] += t
    if SLOW and t > SLOW:
        print("SLOW %.2f %s" % (t, r), s.sexpr() if len(s.sexpr()) < 6000 else "", a, flush=True)
    STATS["queries"] += 1
    STATS[str(r)] += 1
    return r


def arr_hash(seed, name, idx):
    h = (zlib.crc32(name.encode()) * 0x9E3779B97F4A7C15 + seed * 0xD6E8FEB86659FD93 + idx * 0xC2B2AE3D27D4EB4F) & T.MASK[64]
    h ^= h >> 29
    h = (h * 0xBF58476D1CE4E5B9) & T.MASK[64]
    return (h >> 32) & 0xFF


class Witness:
    """an assignment: named variables + sparse arrays; everything else by default rule"""

    def __init__(self, vars=None, arrs=None, seed=0):
        self.vars = vars or {}
        self.arrs = arrs or {}
        self.seed = seed          # 0: default zeros; else pseudo random defaults

    def var(self, n):
        v = self.vars.get(n.p)
        if v is None:
            v = self.default(n.p, n.w)
        return v

    def default(self, name, w):
        if not self.seed:
            return 0
        r = random.Random("%d/%s" % (self.seed, name))
        return r.getrandbits(w)

    def arr(self, name, idx):
        if idx < T.pattern(name):
            return T.pattern_byte(name, idx)
        a = self.arrs.get(name)
        if a is not None:
            v = a.get(idx)
            if v is not None:
                return v
        return arr_hash(self.seed, name, idx) if self.seed else 0

    def value(self, t):
        return T.eval1(t, self.var, self.arr)

    def fork(self, seed):
        return Witness(dict(self.vars), {k: dict(v) for k, v in self.arrs.items()}, seed)


def from_model(m, roots, seed=0):
    """Witness from a z3 model covering the leaves of `roots`"""
    w = Witness(seed=seed)
    z = zctx()
    nodes = T.topo(roots)
    for n in nodes:
        if n.op == "var":
            v = m.eval(z.bv(n), model_completion=False)
            if z3.is_bv_value(v):
                w.vars[n.p] = v.as_long()
    # arrays: evaluate indices bottom up
    for n in nodes:
        if n.op == "sel":
            i = m.eval(z.bv(n.a[0], 64), model_completion=True)
            v = m.eval(z.bv(n), model_completion=True)
            if z3.is_bv_value(i) and z3.is_bv_value(v):
                w.arrs.setdefault(n.p, {})[i.as_long()] = v.as_long()
    return w


class Ctx:
    def __init__(self, prefix=(), rlimit=RLIMIT):
        self.prefix = prefix
        self.pos = 0
        self.trace = []           # decisions taken: 0/1 fork, 2/3 forced false/true
        self.forks = []           # alternative prefixes discovered
        self.pc = []
        self.facts = {}           # term id -> 0/1 known: only what follows from the decisions taken, so that a
        #                           replay of the prefix knows exactly the same at the same point
        self.mfacts = {}          # the same for what `must` found; which questions were asked may depend on models
        self.models = []          # Witness objects satisfying pc
        self.solver = None
        self.rlimit = rlimit
        self.secret_hook = None
        self.norm_cache = {}
        self.range_cache = {}
        self.open_conds = set()
        self.nq = 0
        self.witness_extra = []
        self._pcvars = None
        self.nforks = 0

    # ------------------------------------------------------------ solver
    def _solver(self):
        if self.solver is None:
            s = self.solver = z3.Solver()
            s.set("rlimit", self.rlimit)
            s.set("timeout", 30000)
            z = zctx()
            for c in self.pc:
                s.add(z.bool_(c))
        return self.solver

    def _add(self, c):
        self.pc.append(c)
        if self.solver is not None:
            self.solver.add(zctx().bool_(c))
        self.range_cache.clear()
        self.open_conds.clear()
        self._fact(c, 1)
        self.models = [w for w in self.models if w.value(c)]

    def _fact(self, c, v, into=None):
        into = self.facts if into is None else into
        while c.op == "not":
            c = c.a[0]
            v ^= 1
        into[c.id] = v
        if v and c.op == "and":
            for x in c.a:
                self._fact(x, 1, into)
        if not v and c.op == "or":
            for x in c.a:
                self._fact(x, 0, into)

    def known(self, c, det=False):
        """truth value of c if it is recorded; with det, only by the decisions taken on this path"""
        if type(c) is int:
            return c
        v = 1
        while c.op == "not":
            c = c.a[0]
            v ^= 1
        f = self.facts.get(c.id)
        if f is None and not det:
            f = self.mfacts.get(c.id)
        if f is not None:
            return 1 if f == v else 0
        if c.op == "and":
            ks = [self.known(x, det) for x in c.a]
            if 0 in ks:
                return 1 - v
            if ks == [1, 1]:
                return v
        elif c.op == "or":
            ks = [self.known(x, det) for x in c.a]
            if 1 in ks:
                return v
            if ks == [0, 0]:
                return 1 - v
        return None

    def _local(self, c):
        """is c unsatisfiable whatever the values of the terms far below it?"""
        for limit, bits in ((3000, 8), (60, 0), (400, 0)):
            seen = {c.id}
            q = [c]
            cut = []
            i = 0
            while i < len(q) and len(q) < limit:
                n = q[i]
                i += 1
                if n.op == "extract" and n.w <= bits and n.a[0].w >= 32 and n.a[0].op in ("add", "xor", "mul"):
                    cut.append(n)
                    continue
                for x in n.a:
                    if type(x) is not int and x.id not in seen:
                        seen.add(x.id)
                        q.append(x)
            cut += q[i:]
            if not cut:
                return False           # small: the solver can have it whole
            z = T.Z3Ctx()
            z.arrs = zctx().arrs
            for n in cut:
                z.memo[n.id] = (z3.BitVec("cut!%d" % n.id, n.w), None)
            s = z3.SolverFor("QF_UFBV")
            s.set("rlimit", 1_000_000)
            s.set("timeout", 2000)
            s.add(z.bool_(c))
            if zcheck(s) == z3.unsat:
                return True
        return False

    def _check(self, c):
        """witness of pc & c, or None"""
        if c.d and self._local(c):
            return None
        s = self._solver()
        self.nq += 1
        b = zctx().bool_(c)
        r = zcheck(s, b)
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            # one-shot retry without incrementality
            s2 = z3.SolverFor("QF_UFBV")
            s2.set("rlimit", self.rlimit * 4)
            s2.set("timeout", 60000)
            z = zctx()
            for x in self.pc:
                s2.add(z.bool_(x))
            s2.add(b)
            r = zcheck(s2)
            if r == z3.unsat:
                return None
            if r == z3.unknown:
                raise Inconclusive("solver gave up on a path condition")
            s = s2
        w = from_model(s.model(), self.pc + [c])
        return w

    def _model(self):
        if not self.models:
            if not self.pc:
                self.models.append(Witness())
            else:
                w = self._check(self.pc[-1])
                if w is None:
                    raise Inconclusive("path condition became unsatisfiable")
                self.models.append(w)
        return self.models[-1]

    # ------------------------------------------------------------ services
    def assume(self, c):
        if type(c) is int:
            if not c:
                raise Inconclusive("assumption is false")
            return
        self._add(c)

    def must(self, c):
        """pc entails c"""
        k = self.known(c)
        if k is not None:
            return bool(k)
        for w in self.models:
            if not w.value(c):
                return False
        nc = T.bnot1(c)
        w = self._check(nc)
        if w is None:
            self._fact(c, 1, self.mfacts)
            return True
        self.models.append(w)
        if len(self.models) > 16:
            del self.models[1:5]
        return False

    def may(self, c):
        if type(c) is int:
            return bool(c)
        return not self.must(T.bnot1(c))

    def find(self, c):
        """a witness of pc & c (must exist)"""
        for w in self.models:
            if w.value(c):
                return w
        w = self._check(c)
        if w is None:
            raise Inconclusive("no witness")
        self.models.append(w)
        return w

    def model_value(self, t):
        return self._model().value(t)

    def assume_for_witness(self, c, w=None):
        """the path ends in a finding that needs c: narrow the path condition"""
        if type(c) is not int:
            if w is None:
                w = self.find(c)
            self._add(c)
            self.models = [x for x in self.models if x.value(c)] or [w]

    def decide(self, c):
        """1 / 0 if the path condition determines c, None if it does not (or c depends on data); never forks"""
        if type(c) is int:
            return c
        k = self.known(c, True)
        if k is not None or has_data(c) or T.PIN:
            return k
        if c.id in self.open_conds:
            return None
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            if d == 4:
                self.open_conds.add(c.id)
                return None
            self._fact(c, d & 1)
            return d & 1
        self.pos += 1
        k = self.known(c)
        if k is not None:
            self._fact(c, k)
            self.trace.append(2 + k)
            return k
        seen = set([bool(w.value(c)) for w in self.models])
        if len(seen) < 2:
            for v in (True, False):
                if v not in seen and len(seen) < 2:
                    w = self._check(c if v else T.bnot1(c))
                    if w is None:
                        self._fact(c, 0 if v else 1)
                        self.trace.append(2 if v else 3)
                        return 0 if v else 1
                    self.models.append(w)
                    seen.add(v)
        self.open_conds.add(c.id)
        self.trace.append(4)
        return None

    def branch(self, c, X=None):
        if type(c) is int:
            return c != 0
        k = self.known(c, True)
        if k is not None:
            return bool(k)
        if self.secret_hook:
            self.secret_hook(c, "branch", X)
        # replay
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            v = d & 1
            if d >= 2:
                self._fact(c, v)
            else:
                self.nforks += 1
                self._add(c if v else T.bnot1(c))
            return bool(v)
        self.pos += 1
        k = self.known(c)
        if k is not None:
            self._fact(c, k)
            self.trace.append(2 + k)
            return bool(k)
        t = f = None
        if c.d:
            self._model()          # one side has a witness then; the other may be refuted without the terms far below
        for w in self.models:
            if w.value(c):
                t = w
            else:
                f = w
        if t is None:
            t = self._check(c)
            if t is not None:
                self.models.append(t)
        if t is None:
            self._fact(c, 0)
            self.trace.append(2)
            return False
        if f is None:
            f = self._check(T.bnot1(c))
        if f is None:
            self._fact(c, 1)
            self.trace.append(3)
            return True
        self.forks.append(tuple(self.trace) + (0,))
        self.trace.append(1)
        self.nforks += 1
        self._add(c)
        return True

    def concretize(self, t):
        """fork over the feasible values of t"""
        if type(t) is int:
            return t
        t = self.norm(t)
        for _ in range(4096):
            if type(t) is int:
                return t
            if self.pos < len(self.prefix):
                # values must be re-derived deterministically: store them in the prefix as ('v', x)
                d = self.prefix[self.pos]
                if type(d) is tuple:
                    self.pos += 1
                    self.trace.append(d)
                    v = d[1]
                    if self.branch(eq(t.w, t, v)):
                        return v
                    continue
            v = self.model_value(t)
            self.pos += 1
            self.trace.append(("v", v))
            if self.branch(eq(t.w, t, v)):
                return v
        raise Inconclusive("concretize: too many values")

    # ------------------------------------------------------------ normalisation of index-like terms
    def norm(self, t):
        if type(t) is int:
            return t
        r = self.norm_cache.get(t.id)
        if r is not None and (r[1] == len(self.pc) or r[0] is not t):
            return r[0] if r[0] is t or type(r[0]) is int else self.norm(r[0]) if r[0].id != t.id else t
        r = self._norm(t)
        self.norm_cache[t.id] = (r, len(self.pc))
        return r

    def _norm(self, t):
        op = t.op
        if op == "concat":
            x, wx = t.a[0], t.p[0]
            # zext(extract(y, 0, k)) with y < 2^k  ->  y
            if len(t.a) == 2 and type(t.a[1]) is int and t.a[1] == 0 and type(x) is not int:
                if x.op == "extract" and x.p == 0 and not has_data(x):
                    y = x.a[0]
                    if y.w <= t.w and self.must(ult(y.w, y, 1 << wx) if wx < y.w else 1):
                        return self.norm(T.zext(y.w, t.w, y))
                if x.op == "extract" and x.p == 0 and y_w(x) > t.w:
                    y = x.a[0]
                    if not has_data(y) and self.must(ult(y.w, y, 1 << wx)):
                        return self.norm(extract(y, 0, t.w))
                if x.op in ("ite", "add") and not has_data(x):
                    x2 = self.norm(x)
                    if x2 is not x:
                        return self.norm(T.zext(wx, t.w, x2))
                if x.op == "add" and not has_data(x):
                    # zext(sum) -> sum of zexts when it does not wrap (negative coefficients and
                    # constants are read as subtractions)
                    ps, c = T.coefs(x)
                    half = 1 << (wx - 1)
                    sg = lambda k: k - (1 << wx) if k >= half else k
                    qs = [(sg(k), T.zext(wx, t.w, y)) for k, y in ps]
                    for cc in ((c, sg(c)) if sg(c) != c else (c,)):
                        s = T.linear(t.w, qs, cc)
                        if self.must(eq(t.w, s, t)):
                            return self.norm(s)
            # concat(0[k], extract(y,k,..)): y with low bits cleared; keep
            return t
        if op == "ite":
            k = self.known(t.a[0], has_data(t.a[0]))
            if k is None and not has_data(t.a[0]):
                if self.must(t.a[0]):
                    k = 1
                elif self.must(T.bnot1(t.a[0])):
                    k = 0
            if k is not None:
                r = t.a[1] if k else t.a[2]
                return self.norm(r)
            return t
        if op == "add" and not has_data(t):
            ps, c = T.coefs(t)
            qs = [(k, self.norm(y)) for k, y in ps]
            if any(y is not z for (_, y), (_, z) in zip(ps, qs)):
                r = T.linear(t.w, qs, c)
                return self.norm(r) if r is not t else t
            return t
        if op == "extract" and t.p == 0:
            x = t.a[0]
            if x.op in ("add", "ite") and not has_data(x):
                x2 = self.norm(x)
                if x2 is not x:
                    return self.norm(T.extract_v(x2, x.w, 0, t.w))
            return t
        return t

    def range(self, t, hi):
        """(lo, hi) bounds of unsigned t under pc (t <= hi is known)"""
        if type(t) is int:
            return t, t
        r = self.range_cache.get(t.id)
        if r is not None:
            return r
        if t.op == "add" and t.w == 64:
            # base + constant: the range of the base is shared by all accesses relative to it
            ps, c = T.coefs(t)
            if 0 < c < 1 << 63 and c <= hi:
                b = T.linear(64, ps, 0)
                if type(b) is not int and (b.id in self.range_cache or self.must(T.ule(64, b, hi - c))):
                    l, h = self.range(b, hi - c)
                    if h + c < 1 << 64:
                        r = (l + c, h + c)
                        self.range_cache[t.id] = r
                        return r
        lo = 0
        zb = T._zbound(t)
        if zb < hi:
            hi = zb
        h0 = hi
        # upper bound
        a = 0
        m = [w.value(t) for w in self.models]
        if not m:
            m = [self.model_value(t)]
        a = max(m)
        b = hi
        while a < b:
            mid = (a + b) // 2
            if self.must(T.ule(t.w, t, mid)):
                b = mid
            else:
                a = max([mid + 1] + [w.value(t) for w in self.models])
        hi = b
        a = 0
        b = min([w.value(t) for w in self.models] + m)
        while a < b:
            mid = (a + b + 1) // 2
            if self.must(T.ule(t.w, mid, t)):
                a = mid
            else:
                b = min([mid - 1] + [w.value(t) for w in self.models])
        lo = a
        self.range_cache[t.id] = (lo, hi)
        return lo, hi


def y_w(x):
    return x.a[0].w


def has_data(t):
    """does the term depend on array contents (message bytes) or on a variable marked as data?"""
    return type(t) is not int and t.d
