"""Rewriting of terms under the path condition.

Every step that uses the path condition is justified by the solver (`ctx.must`,
`ctx.range`); the rest are the term constructors.  Only conditions over control
values (lengths, positions, counts) are looked at, never message data.
"""
import terms as T
from path import has_data
from sweep import rebuild


class Simp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.le = {}
        self.pclen = len(ctx.pc)
        self.eqs = None

    def __call__(self, x):
        if type(x) is int:
            return x
        if self.pclen != len(self.ctx.pc):
            self.memo.clear()
            self.le.clear()
            self.pclen = len(self.ctx.pc)
            self.eqs = None
        if self.eqs is None:
            self.equations()
        memo = self.memo
        r = memo.get(x.id)
        if r is not None:
            return r
        st = [x]
        while st:
            n = st[-1]
            if n.id in memo:
                st.pop()
                continue
            todo = [c for c in n.a if type(c) is not int and c.id not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            memo[n.id] = self.node(n)
        return memo[x.id]

    def equations(self):
        """sums of control values the path condition pins down: solve them for one variable"""
        self.eqs = {}
        seen = set()
        for c in self.ctx.pc:
            while c.op == "not":
                c = c.a[0]
            if c.op not in ("ult", "eq", "slt"):
                continue
            if any(type(x) is not int and (x.w != 64 or x.d) for x in c.a):
                continue
            for x in c.a + (T.sub(64, c.a[0], c.a[1]),):
                if type(x) is int or x.op != "add":
                    continue
                ps, k = T.coefs(x)
                L = T.linear(x.w, ps, 0)
                if type(L) is int or L.id in seen or len(ps) > 6:
                    continue
                seen.add(L.id)
                v = self.const(L)
                if type(v) is not int:
                    continue
                for k, y in ps:
                    if y.op == "var" and y.id not in self.memo and k in (1, T.MASK[x.w]):
                        rest = [(q, z) for q, z in ps if z is not y]
                        # k*y + rest = v
                        e = T.sub(x.w, v, T.linear(x.w, rest, 0))
                        if k != 1:
                            e = T.sub(x.w, 0, e)
                        self.memo[y.id] = e
                        self.eqs[y.id] = e
                        break

    def node(self, n):
        if not n.a:
            return n if n.d or n.w < 8 else self.const(n)
        memo = self.memo
        args = tuple([c if type(c) is int else memo[c.id] for c in n.a])
        m = n
        for p, q in zip(args, n.a):
            if p is not q:
                m = rebuild(n, args)
                break
        if type(m) is int:
            return m
        op = m.op
        if op == "ult" or op == "eq" or op == "slt":
            if not has_data(m):
                return self.cond(m)
        elif op == "ite":
            return self.ite(m)
        elif op == "xor" and m.d and m is not n:
            # rebuilding may have uncovered control parts
            args = tuple([self.ctx.norm(y) if type(y) is not int and not y.d and y.op == "concat" else y for y in m.a])
            if any(p is not q for p, q in zip(args, m.a)):
                m = rebuild(m, args)
        elif m.w >= 8 and not m.d and op != "var":
            m = self.ctx.norm(m)
            if type(m) is not int:
                return self.const(m)
        return m

    def const(self, m):
        """the value of a control term the path condition pins down"""
        vs = {w.value(m) for w in self.ctx.models}
        if len(vs) == 1:
            x = vs.pop()
            if self.fact(T.eq(m.w, m, x)):
                return x
        return m

    # -------------------------------------------------- conditions
    def split(self, x):
        """x = L + c without wrap-around, c a Python integer of either sign; (L, c)"""
        if type(x) is int:
            return 0, x
        if x.op != "add" or type(x.a[-1]) is not int:
            return x, 0
        c = x.a[-1]
        w = x.w
        L = T.sub(w, x, c)
        half = 1 << (w - 1)
        if c >= half:
            c -= 1 << w
            ok = self.fact(T.ule(w, -c, L))
        else:
            ok = self.fact(T.ule(w, L, T.MASK[w] - c))
        return (L, c) if ok else (x, 0)

    def fact(self, c):
        if type(c) is int:
            return bool(c)
        r = self.le.get(c.id)
        if r is None:
            r = self.le[c.id] = self.ctx.must(c)
        return r

    def rng(self, x):
        return self.ctx.range(x, T.MASK[x.w])

    def cond(self, m):
        k = self.ctx.known(m)
        if k is not None:
            return k
        op = m.op
        a, b = m.a
        w = m.p
        if op == "ult":
            if type(a) is int and type(b) is not int:
                L, c = self.split(b)
                k = a - c
                if k < 0:
                    return 1
                if k > T.MASK[w]:
                    return 0
                lo, hi = self.rng(L)
                if k < lo:
                    return 1
                if k >= hi:
                    return 0
                return T.ult(w, k, L)
            if type(b) is int and type(a) is not int:
                L, c = self.split(a)
                k = b - c
                if k <= 0:
                    return 0
                if k > T.MASK[w]:
                    return 1
                lo, hi = self.rng(L)
                if hi < k:
                    return 1
                if lo >= k:
                    return 0
                # L < k  <=>  not (k-1 < L)
                return T.bnot1(T.ult(w, k - 1, L))
        elif op == "eq":
            if type(b) is int:
                lo, hi = self.rng(a)
                if b < lo or b > hi:
                    return 0
                if lo == hi:
                    return 1
                if b == 0:
                    return T.bnot1(T.ult(w, 0, a))
                return m
        if self.fact(m):
            return 1
        if self.fact(T.bnot1(m)):
            return 0
        return m

    def ite(self, m):
        if type(m) is int or m.op != "ite" or m.a[0].d:
            return m
        c, x, y = m.a
        if (c.op in ("and", "or", "eq") or (type(x) is not int and x.op == "ite" and not x.a[0].d) or
                (type(y) is not int and y.op == "ite" and not y.a[0].d)):
            self.fuel = 400
            return self.tree(m, ())
        k = self.ctx.known(c)
        if k is not None:
            return x if k else y
        return m

    # Case distinctions over control conditions: every branch is simplified under the conditions
    # on the way to it.
    def tree(self, m, env):
        if type(m) is int or m.op != "ite" or m.a[0].d:
            return m
        self.fuel -= 1
        if self.fuel < 0:
            return m
        c, x, y = m.a
        return self.cases(m.w, c, lambda e: self.tree(x, e), lambda e: self.tree(y, e), env)

    def cases(self, w, c, fx, fy, env):
        if c.op == "not":
            return self.cases(w, c.a[0], fy, fx, env)
        if c.op == "and" and c.w == 1:
            a, b = c.a
            return self.cases(w, a, lambda e: self.cases(w, b, fx, fy, e), fy, env)
        if c.op == "or" and c.w == 1:
            a, b = c.a
            return self.cases(w, a, fx, lambda e: self.cases(w, b, fx, fy, e), env)
        k = self.under(c, env)
        if k is not None:
            return fx(env) if k else fy(env)
        x = fx(env + ((c, 1),))
        y = fy(env + ((c, 0),))
        if c.op == "eq" and type(c.a[1]) is int and type(c.a[0]) is not int:
            L, j = c.a
            if type(x) is not int and x.op == "sel" and type(x.a[0]) is not int and c.p == 64:
                # under L = j an index L + k is the number j + k
                k = T.sub(64, x.a[0], L)
                if type(k) is int:
                    x = T.sel(x.p, (k + j) & T.MASK[64])
            if type(y) is not int and y.op == "ite" and not y.a[0].d:
                c2, x2, y2 = y.a
                # L = j or j < L  <=>  j-1 < L;   L = j or not (j-1 < L)  <=>  not (j < L)
                if c2 is T.ult(c.p, j, L) and _same(x, x2):
                    return T.ite(w, T.ult(c.p, j - 1, L) if j else 1, x, y2)
                if j and c2 is T.ult(c.p, j - 1, L) and _same(x, y2):
                    return T.ite(w, T.ult(c.p, j, L), x2, x)
        if x is y or (type(x) is int and type(y) is int and x == y):
            return x
        # ite(c, X, ite(c2, X, Y)) with c => c2, and the mirror image
        if type(y) is not int and y.op == "ite" and not y.a[0].d:
            c2, x2, y2 = y.a
            if _same(x, x2) and self.under(c2, ((c, 1),)) == 1:
                return y
        if type(x) is not int and x.op == "ite" and not x.a[0].d:
            c2, x2, y2 = x.a
            if _same(y, y2) and self.under(c2, ((c, 0),)) == 0:
                return x
        return T.ite(w, c, x, y)

    def under(self, c, env):
        """truth value of condition c under the path condition and env, or None"""
        k = self.ctx.known(c)
        if k is not None:
            return k
        for e, v in env:
            if e is c:
                return v
        if c.op == "ult" and type(c.a[0]) is int:
            k, A = c.a
            for e, v in env:
                if e.op == "ult" and type(e.a[0]) is int and e.p == c.p:
                    k2, A2 = e.a
                    if v:
                        if k <= k2 and self.fact(T.ule(c.p, A2, A)):
                            return 1
                    elif k >= k2 and self.fact(T.ule(c.p, A, A2)):
                        return 0
            return None
        for e, v in env:
            if v:
                if self.fact(T.bor(1, T.bnot1(e), c)):
                    return 1
                if self.fact(T.bor(1, T.bnot1(e), T.bnot1(c))):
                    return 0
            else:
                if self.fact(T.bor(1, e, c)):
                    return 1
                if self.fact(T.bor(1, e, T.bnot1(c))):
                    return 0
        return None


def _same(x, y):
    return x is y or (type(x) is int and type(y) is int and x == y)
