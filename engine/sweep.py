"""Equivalence of term vectors by word-level sweeping.

Both sides are terms over the same inputs.  Nodes that agree under simulation
are candidate-equal; every merge is justified by an UNSAT answer of the SMT
solver over a bounded cone whose leaves are cut points (already merged classes,
so cutting over-approximates), or by congruence of already merged operands.
The final query per output is again put to the solver.
"""
import random
import time
import z3
import terms as T
from terms import N
import path
from path import zcheck, zctx, Inconclusive, Witness

LEMMAS = {}            # canonical lemma text -> True   (path-condition free lemmas)


class Diff(Exception):
    """the two sides differ; .w is a Witness, .k index of the differing pair"""

    def __init__(self, w, k):
        self.w = w
        self.k = k


class Refine(Exception):
    """an assignment that separates two nodes which agreed so far"""

    def __init__(self, w):
        self.w = w


class Stats:
    def __init__(self):
        self.lemmas = 0
        self.cached = 0
        self.failed = 0
        self.final = 0
        self.structural = 0
        self.rewritten = 0
        self.nodes = 0


def intervals(ctx):
    """control variable -> [lo, hi] read off the path condition's single-variable constraints"""
    iv = {}
    for c in ctx.pc:
        v = 1
        while c.op == "not":
            c = c.a[0]
            v ^= 1
        if c.op != "ult" and c.op != "eq":
            continue
        a, b = c.a
        if type(a) is int and b.op == "var":
            t = iv.setdefault(b, [0, T.MASK[b.w]])
            if v:
                t[0] = max(t[0], a + 1)
            else:
                t[1] = min(t[1], a)
        elif type(b) is int and a.op == "var":
            t = iv.setdefault(a, [0, T.MASK[a.w]])
            if c.op == "eq":
                if v:
                    t[0] = t[1] = b
                elif t[0] == b:
                    t[0] = b + 1
            elif v:
                t[1] = min(t[1], b - 1)
            else:
                t[0] = max(t[0], b)
    return iv


def sim_env(ctx, roots, k):
    """k simulation assignments that satisfy the path condition"""
    pcv = set()
    arr_in_pc = False
    for n in T.topo(ctx.pc):
        if n.op == "var":
            pcv.add(n.p)
        elif n.op == "sel":
            arr_in_pc = True
    ws = []
    base = list(ctx.models) or [ctx._model()]
    # values of the control variables: extremes and random points of their ranges, kept when the
    # whole path condition holds, otherwise the solver's own models
    iv = intervals(ctx)
    rnd = random.Random(12345)
    for t in range(12 * k if iv else 0):
        if len(ws) >= k - 1:
            break
        b = base[t % len(base)]
        vs = {n: v for n, v in b.vars.items() if n in pcv}
        for n, (lo, hi) in iv.items():
            if lo <= hi:
                vs[n.p] = hi if t == 0 else lo if t == 1 else rnd.randint(lo, hi)
        w = Witness(vs, {a: dict(d) for a, d in b.arrs.items()} if arr_in_pc else {}, seed=t + 1)
        if all(w.value(c) for c in ctx.pc):
            ws.append(w)
    i = 100
    while len(ws) < k:
        b = base[i % len(base)]
        i += 1
        w = Witness({n: v for n, v in b.vars.items() if n in pcv}, {a: dict(d) for a, d in b.arrs.items()} if arr_in_pc else {}, seed=i)
        for c in ctx.pc:
            if not w.value(c):
                w = None
                break
        if w is not None:
            ws.append(w)
        elif i > 100 + 4 * k + 8:
            # defaults clash with the path condition: pin everything the model says
            w = b.fork(0)
            ws.append(w)
    return ws


def diversify(ctx, want=3):
    """a few different models of the path condition (varying the control variables)"""
    pcv = [n for n in T.topo(ctx.pc) if n.op == "var"]
    if not pcv:
        return
    tries = 0
    while len(ctx.models) < want and tries < want:
        tries += 1
        c = 0
        m = ctx._model()
        for n in pcv:
            v = m.var(n)
            c = T.bor(1, c, T.bnot1(T.eq(n.w, n, v)))
        if type(c) is int:
            return
        # differ in as many as possible: ask for all different first
        call = 1
        for n in pcv:
            for mm in ctx.models:
                call = T.band(1, call, T.bnot1(T.eq(n.w, n, mm.var(n))))
        w = ctx._check(call) if type(call) is not int else None
        if w is None:
            w = ctx._check(c)
        if w is None:
            return
        ctx.models.append(w)


class Sweeper:
    def __init__(self, ctx, nsim=6, stats=None, budget=20_000_000):
        self.ctx = ctx
        self.nsim = nsim
        self.st = stats or Stats()
        self.budget = budget
        self.rep = {}            # id -> N or int
        self.key = {}
        self.sig = {}            # sig -> list of reps
        self.vals = {}           # id -> list of ints (per sim)
        self.done = set()
        self.sims = None
        self.envs = []
        self.simp = None
        self.nomerge = set()     # pairs known (or assumed, after a solver failure) to be different
        self.refined = 0

    # ------------------------------------------------------------
    def r(self, x):
        if type(x) is int:
            return x
        rep = self.rep
        y = rep.get(x.id)
        if y is None:
            return x
        while type(y) is not int:
            z = rep.get(y.id)
            if z is None or z is y:
                break
            y = z
        return y

    def simulate(self, nodes):
        for k, w in enumerate(self.sims):
            g = self.envs[k]
            T.evaluate(nodes, w.var, w.arr, g)

    def prove(self, pairs):
        """pairs: list of (a, b, w).  Raises Diff or Inconclusive; returns on success."""
        st = self.st
        todo = []
        for k, (a, b, w) in enumerate(pairs):
            if a is b or (type(a) is int and type(b) is int and a == b):
                st.structural += 1
                continue
            if self.ctx.pc:
                if self.simp is None:
                    import simp
                    self.simp = simp.Simp(self.ctx)
                a = self.simp(a)
                b = self.simp(b)
                if a is b or (type(a) is int and type(b) is int and a == b):
                    st.rewritten += 1
                    continue
            todo.append((k, a, b, w))
        if not todo:
            return
        if self.sims is None:
            diversify(self.ctx)
            self.sims = sim_env(self.ctx, None, self.nsim)
            self.envs = [{} for _ in self.sims]
            self.pcnames = {n.p for n in T.topo(self.ctx.pc) if n.op in ("var", "sel")}
        roots = [x for _, a, b, _ in todo for x in (a, b) if type(x) is not int]
        nodes = T.topo(roots)
        st.nodes += len(nodes)
        self.simulate(nodes)
        # quick refutation
        for k, a, b, w in todo:
            for i, s in enumerate(self.sims):
                g = self.envs[i]
                va = a if type(a) is int else g[a.id]
                vb = b if type(b) is int else g[b.id]
                if va != vb:
                    raise Diff(self.confirm(s, a, b), k)
        # small cones go to the solver as they are
        rest = []
        for t in todo:
            k, a, b, w = t
            if self.small([a, b], 600):
                st.final += 1
                res = self.query(a, b, w, depths=(100000,), budget=3_000_000)
                if res is True:
                    continue
                if res is not None:
                    raise Diff(res, k)
            rest.append(t)
        todo = rest
        if not todo:
            return
        # outputs that are functions of narrow pieces of words (hexadecimal digits): settle the words first, then
        # compare the functions alone
        easy = []
        words = []
        for t in todo:
            cs = self.pieces([x for x in t[1:3] if type(x) is not int])
            if cs:
                easy.append(t)
                words += cs
        if easy:
            self.visits(words, roots, todo)
            for t in easy:
                if self.query(self.r(t[1]), self.r(t[2]), t[3], depths=(-2,)) is True:
                    todo.remove(t)
            if not todo:
                return
        self.visits([x for _, a, b, _ in todo for x in (a, b) if type(x) is not int], roots, todo)
        for k, a, b, w in todo:
            ra, rb = self.r(a), self.r(b)
            if ra is rb or (type(ra) is int and type(rb) is int and ra == rb):
                st.final += 1
                continue
            st.final += 1
            self.final(k, a, b, w)

    def pieces(self, roots, limit=600):
        """the narrow pieces of wide words that the roots are made of, or [] if they are not"""
        seen = {x.id for x in roots}
        q = list(roots)
        cut = []
        i = 0
        while i < len(q):
            n = q[i]
            i += 1
            if len(q) > limit or n.op in ("var", "sel"):
                return []
            if piece(n):
                if i <= len(roots):
                    return []
                cut.append(n)
                continue
            for c in n.a:
                if type(c) is not int and c.id not in seen:
                    seen.add(c.id)
                    q.append(c)
        return cut

    def visits(self, tops, roots, todo):
        nodes = T.topo(tops)
        while True:
            try:
                for n in nodes:
                    if n.id not in self.done:
                        self.done.add(n.id)
                        self.visit(n)
                break
            except Refine as e:
                # a counterexample to an internal equality: does it reach the outputs?  If not, it joins the
                # simulation vectors and the candidates are formed anew
                for k, a, b, w in todo:
                    if (a if type(a) is int else e.w.value(a)) != (b if type(b) is int else e.w.value(b)):
                        raise Diff(e.w, k)
                self.refined += 1
                self.sims.append(e.w)
                g = {}
                self.envs.append(g)
                every = T.topo(roots + [self.key[x] for x in self.key if type(self.key[x]) is not int])
                T.evaluate(every, e.w.var, e.w.arr, g)
                self.done.clear()
                self.sig.clear()
                self.key.clear()

    def confirm(self, s, a, b):
        """put the refuting assignment to the solver: pc & a!=b with the inputs pinned"""
        return s

    def final(self, k, a, b, w):
        res = self.query(self.r(a), self.r(b), w, depths=(-2, -1, 8, 24, 80, 100000))
        if res is True:
            return
        if res is not None:
            raise Diff(res, k)
        raise Inconclusive("could not decide an output equality")

    # ------------------------------------------------------------
    def visit(self, n):
        op = n.op
        if n.id in self.rep:
            return               # merged before the candidates were refined
        args = tuple([self.r(c) for c in n.a])
        # congruence
        ids = [c if type(c) is int else (c.id,) for c in args]
        if op in ("add", "xor", "and", "or", "eq", "mul"):
            ids.sort(key=repr)
        key = (op, n.w, n.p) + tuple(ids)
        m = self.key.get(key)
        if m is not None:
            self.rep[n.id] = m
            return
        # re-normalised copy through the constructors
        if any(x is not y for x, y in zip(args, n.a)):
            n2 = rebuild(n, args)
            if type(n2) is int:
                self.rep[n.id] = n2
                return
            if n2 is not n:
                if n2.id not in self.done:
                    # children are representatives already; visit the new nodes
                    new = T.topo([n2], self.done)
                    self.simulate(new)
                    for x in new:
                        self.done.add(x.id)
                        self.visit(x)
                r2 = self.r(n2)
                self.rep[n.id] = r2
                self.key[key] = r2
                return
        self.key[key] = n
        if n.w == 1 and op in ("var",):
            return
        vals = tuple([g[n.id] for g in self.envs])
        s = (n.w, vals)
        cand = self.sig.get(s)
        # constant?
        if op not in ("var", "sel") and all(v == vals[0] for v in vals) and n.w > 1:
            if self.merge_query(n, vals[0]):
                self.rep[n.id] = vals[0]
                self.key[key] = vals[0]
                return
        if (op != "var" or n.p.startswith("eq_")) and cand and n.w > 1:
            for m in cand[:3]:
                if self.merge_query(n, m):
                    self.rep[n.id] = m
                    self.key[key] = m
                    return
        if cand is None:
            self.sig[s] = [n]
        else:
            cand.append(n)

    def merge_query(self, n, m):
        pair = (n.id, m if type(m) is int else -m.id - 1)
        if pair in self.nomerge:
            return False
        res = self.query(n, m, n.w, depths=(4, 14), budget=1_500_000, maxcone=600)
        if res is True:
            return True
        self.nomerge.add(pair)
        self.st.failed += 1
        if res is not None and self.refined < 40:
            raise Refine(res)
        return False

    # ------------------------------------------------------------ solver lemmas
    def small(self, roots, limit):
        """at most `limit` nodes below the roots?"""
        seen = set()
        st = [x for x in roots if type(x) is not int]
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if len(seen) > limit:
                return False
            st.extend(c for c in n.a if type(c) is not int and c.id not in seen)
        return True

    def cone(self, roots, depth):
        """local formula: returns (nodes in dependency order, ids of the cut points)"""
        r = self.r
        if depth >= 100000:
            order = {}
            st = [(x, False) for x in roots if type(x) is not int]
            while st:
                n, fin = st.pop()
                if n.id in order:
                    continue
                if fin or n.op == "var":
                    order[n.id] = n
                    continue
                st.append((n, True))
                for c in n.a:
                    c = r(c)
                    if type(c) is not int and c.id not in order:
                        st.append((c, False))
            return order, set()
        best = {}
        node = {}
        st = [(x, depth) for x in roots if type(x) is not int]
        while st:
            n, d = st.pop()
            if best.get(n.id, -1) >= d:
                continue
            best[n.id] = d
            node[n.id] = n
            if n.op == "var" or d == 0:
                continue
            dd = d - (0 if n.op in ("concat", "extract", "not") else 1)
            for c in n.a:
                c = r(c)
                if type(c) is not int:
                    st.append((c, dd))
        leaves = {i for i, d in best.items() if d == 0 and node[i].op != "var"}
        order = {}
        st = [(x, False) for x in roots if type(x) is not int]
        while st:
            n, fin = st.pop()
            if n.id in order:
                continue
            if fin or n.op == "var" or n.id in leaves:
                order[n.id] = n
                continue
            st.append((n, True))
            for c in n.a:
                c = r(c)
                if type(c) is not int and c.id not in order:
                    st.append((c, False))
        return order, leaves

    def shared(self, a, b, meet, limit=1500):
        """local formula cut at narrow pieces of wide words, and (meet) where the two sides meet"""
        r = self.r
        seen = []
        for x in (a, b):
            s = {x.id: x}
            q = [x]
            i = 0
            stop = set()
            while i < len(q) and len(q) < limit:
                n = q[i]
                i += 1
                if piece(n):
                    stop.add(n.id)
                    continue
                for c in n.a:
                    c = r(c)
                    if type(c) is not int and c.id not in s:
                        s[c.id] = c
                        q.append(c)
            seen.append((s, stop | {n.id for n in q[i:]}))
        both = (set(seen[0][0]) & set(seen[1][0]) if meet else set()) | seen[0][1] | seen[1][1]
        both -= {a.id, b.id}
        leaves = set()
        order = {}
        st = [(b, False), (a, False)]
        while st:
            n, fin = st.pop()
            if n.id in order:
                continue
            if fin or n.op == "var" or n.id in both:
                if n.op != "var" and n.id in both:
                    leaves.add(n.id)
                order[n.id] = n
                continue
            st.append((n, True))
            for c in n.a:
                c = r(c)
                if type(c) is not int and c.id not in order:
                    st.append((c, False))
        return order, leaves

    def query(self, a, b, w, depths, budget=None, maxcone=None):
        """True: equal (proved).  Witness: differ.  None: undecided"""
        pcfree = not self.ctx.pc
        for di, d in enumerate(depths):
            if d < 0:
                if type(a) is int or type(b) is int:
                    continue
                order, leaves = self.shared(a, b, d == -1)
            else:
                order, leaves = self.cone([a, b], d)
            if maxcone and len(order) > maxcone:
                if di or d < 4:
                    return None
                order, leaves = self.cone([a, b], 2)       # sums of many terms make deep formulas wide
                if len(order) > maxcone:
                    return None
                last = True
            else:
                last = False
            # control variables in the cone -> the path condition matters
            ctrl = any((n.op == "var" or n.op == "sel") and n.p in self.pcnames for i, n in order.items() if i not in leaves)
            use_pc = (not pcfree) and ctrl
            closed = not leaves
            ck = self.canon(a, b, w, order, leaves) if not use_pc else None
            if ck is not None and ck in LEMMAS:
                self.st.cached += 1
                return True
            r, model = self.solve(a, b, w, order, leaves, use_pc, budget)
            if r == z3.unsat:
                self.st.lemmas += 1
                if ck is not None:
                    LEMMAS[ck] = True
                return True
            if r == z3.sat and closed:
                wt = self.witness(model, order, use_pc)
                if wt is not None:
                    return wt
            if closed or last:
                return None
        return None

    def canon(self, a, b, w, order, leaves):
        """canonical text of a lemma with leaves renamed in visiting order"""
        if len(order) > 400:
            return None
        names = {}
        out = []

        def ref(x):
            x = self.r(x)
            if type(x) is int:
                return "%d" % x
            return names[x.id]
        for i in order:
            n = order[i]
            if i in leaves or n.op == "var":
                names[i] = "L%d" % len(names)
                out.append("%s:%d" % (names[i], n.w))
            else:
                names[i] = "N%d" % len(names)
                out.append("%s=%s,%d,%s(%s)" % (names[i], n.op, n.w, n.p, ",".join(ref(c) for c in n.a)))
        ra = a if type(a) is int else names[a.id]
        rb = b if type(b) is int else names[b.id]
        out.append("%s==%s" % (ra, rb))
        return ";".join(out)

    def solve(self, a, b, w, order, leaves, use_pc, budget=None):
        z = T.Z3Ctx()
        memo = z.memo
        base = zctx()
        z.arrs = base.arrs
        for i in order:
            n = order[i]
            if i in leaves:
                memo[i] = (z3.BitVec("cut!%d" % i, n.w), None)
                continue
            if n.op == "var":
                memo[i] = (z3.BitVec(n.p, n.w), None)
                continue
            # operands by representative
            args = tuple([self.r(c) for c in n.a])
            memo[i] = z._conv(_Shadow(n, args))
        s = z3.SolverFor("QF_UFBV")
        s.set("rlimit", budget or self.budget)
        s.set("timeout", 20000 if (budget or self.budget) > 2_000_000 else 2000)
        if use_pc:
            for c in self.ctx.pc:
                s.add(base.bool_(c))
        ga = z3.BitVecVal(a, w) if type(a) is int else memo[a.id][0]
        gb = z3.BitVecVal(b, w) if type(b) is int else memo[b.id][0]
        s.add(ga != gb)
        r = zcheck(s)
        return r, (s.model() if r == z3.sat else None)

    def witness(self, model, order, use_pc):
        roots = [order[i] for i in order]
        # leaves of the full cone
        w = Witness(seed=1)
        z = zctx()
        if not use_pc and self.ctx.pc:
            # the query did not touch the path condition's inputs: take them from one of its models
            m = self.ctx._model()
            for n in T.topo(self.ctx.pc):
                if n.op == "var":
                    w.vars[n.p] = m.var(n)
                elif n.op == "sel":
                    i = m.value(n.a[0])
                    w.arrs.setdefault(n.p, {})[i] = m.arr(n.p, i)
        for n in T.topo(roots + (self.ctx.pc if use_pc else [])):
            if n.op == "var":
                v = model.eval(z3.BitVec(n.p, n.w), model_completion=False)
                if z3.is_bv_value(v):
                    w.vars[n.p] = v.as_long()
        for n in T.topo(roots + (self.ctx.pc if use_pc else [])):
            if n.op == "sel":
                try:
                    i = w.value(n.a[0])
                except KeyError:
                    continue
                v = model.eval(z.arr(n.p)(z3.BitVecVal(i, 64)), model_completion=False)
                if z3.is_bv_value(v):
                    w.arrs.setdefault(n.p, {})[i] = v.as_long()
        for c in self.ctx.pc:
            if not w.value(c):
                return None
        return w


def piece(n):
    return n.op == "extract" and n.w <= 8 and n.a[0].w >= 32 and n.a[0].op in ("add", "xor", "mul")


class _Shadow:
    """node with operands replaced by representatives (for translation only)"""
    __slots__ = ("op", "w", "p", "a", "id")

    def __init__(self, n, args):
        self.op = n.op
        self.w = n.w
        self.p = n.p
        self.a = args
        self.id = n.id


def rebuild(n, a):
    op, w, p = n.op, n.w, n.p
    if op == "add":
        k = n.p or ()
        return T.linear(w, [(k[i] if i < len(k) else 1, x) for i, x in enumerate(a)], 0)
    if op == "xor":
        r = 0
        for x in a:
            r = T.bxor(w, r, x)
        return r
    if op == "and":
        return T.band(w, *a)
    if op == "or":
        return T.bor(w, *a)
    if op == "not":
        return T.bnot1(a[0])
    if op == "eq":
        return T.eq(p, *a)
    if op == "ult":
        return T.ult(p, *a)
    if op == "slt":
        return T.slt(p, *a)
    if op == "ite":
        return T.ite(w, *a)
    if op == "concat":
        return T.concat(list(zip(a, p)))
    if op == "extract":
        return T.extract(a[0], p, w)
    if op == "sel":
        return T.sel(p, a[0])
    if op == "sext":
        return T.sext(p, w, a[0])
    if op == "mul":
        return T.mul(w, *a)
    if op == "shl":
        return T.shl(w, *a)
    if op == "lshr":
        return T.lshr(w, *a)
    if op == "ashr":
        return T.ashr(w, *a)
    if op == "udiv":
        return T.udiv(w, *a)
    if op == "urem":
        return T.urem(w, *a)
    if op == "sdiv":
        return T.sdiv(w, *a)
    if op == "srem":
        return T.srem(w, *a)
    if op == "var":
        return n
    raise KeyError(op)
