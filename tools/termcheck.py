#!/usr/bin/env python3-vt
"""Validates the term constructors and the rewriting against z3 on random terms.

    python3-vt tools/termcheck.py [SECONDS [SEED]]

1. constructors: the same random sequence of operations is applied to terms (terms.py, which folds and restructures)
   and to plain z3 expressions; z3 is asked for an assignment on which they differ;
2. translation and evaluation: T.evaluate against z3's value of the plain expression for a random assignment;
3. rewriting: simp.Simp under a random path condition; z3 is asked for an assignment of the path condition on which the
   term and its simplification differ.
Not part of any check; the deciding step trusts these functions.
"""
import os
import random
import sys
import time
import z3
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import terms as T
import path
import simp

ARR = z3.Function("A_m", z3.BitVecSort(64), z3.BitVecSort(8))
BIT = [z3.BitVecVal(0, 1), z3.BitVecVal(1, 1)]


def b2(x):
    return z3.If(x, BIT[1], BIT[0])


def const(rng, w):
    k = rng.randrange(6)
    M = T.MASK[w]
    if k == 0:
        return rng.choice((0, 1, M, M >> 1, (M >> 1) + 1)) & M
    if k == 1:
        return (1 << rng.randrange(w)) & M
    if k == 2:
        return ((1 << rng.randrange(w + 1)) - 1) & M
    if k == 3:
        return (M << rng.randrange(w)) & M
    if k == 4:
        return rng.randrange(20) & M
    return rng.getrandbits(w)


class Gen:
    def __init__(self, rng, widths):
        self.rng = rng
        self.ws = widths
        self.pool = {}
        for w in widths + [1, 64]:
            for i in range(3 if w != 1 else 1):
                n = "%s%d_%d" % (rng.choice(("x", "d_")), w, i)
                self.put(w, T.var(n, w), z3.BitVec(n, w))

    def put(self, w, t, z):
        assert type(t) is int or t.w == w, (t, w)
        assert type(t) is not int or 0 <= t <= T.MASK[w], (t, w)
        self.pool.setdefault(w, []).append((t, z))
        return t, z

    def get(self, w, sym=False):
        rng = self.rng
        if not sym and rng.random() < 0.25 or not self.pool.get(w):
            c = const(rng, w)
            return c, z3.BitVecVal(c, w)
        p = self.pool[w]
        if rng.random() < 0.5:
            return p[-1 - rng.randrange(min(4, len(p)))]
        return rng.choice(p)

    def step(self):
        rng = self.rng
        w = rng.choice(self.ws)
        op = rng.choice(("add", "sub", "neg", "mul", "and", "or", "xor", "not1", "shl", "lshr", "ashr", "rotl", "udiv", "urem",
                         "sdiv", "srem", "eq", "ult", "ule", "slt", "sle", "ite", "ite", "extract", "extract", "concat", "concat", "zext",
                         "sext", "sel", "add", "xor", "and", "or", "bits"))
        a, za = self.get(w)
        b, zb = self.get(w)
        if op == "add":
            return self.put(w, T.add(w, a, b), za + zb)
        if op == "sub":
            return self.put(w, T.sub(w, a, b), za - zb)
        if op == "neg":
            return self.put(w, T.neg(w, a), -za)
        if op == "mul":
            b = const(rng, w)
            return self.put(w, T.mul(w, a, b), za * z3.BitVecVal(b, w))
        if op == "and":
            return self.put(w, T.band(w, a, b), za & zb)
        if op == "or":
            return self.put(w, T.bor(w, a, b), za | zb)
        if op == "xor":
            return self.put(w, T.bxor(w, a, b), za ^ zb)
        if op == "not1":
            a, za = self.get(1)
            return self.put(1, T.bnot1(a), ~za)
        if op in ("shl", "lshr", "ashr"):
            if rng.random() < 0.8:
                b = rng.randrange(w)
                zb = z3.BitVecVal(b, w)
            f = {"shl": (T.shl, lambda x, y: x << y), "lshr": (T.lshr, z3.LShR), "ashr": (T.ashr, lambda x, y: x >> y)}[op]
            return self.put(w, f[0](w, a, b), f[1](za, zb))
        if op == "rotl":
            c = rng.randrange(2 * w)
            return self.put(w, T.rotl(w, a, c), z3.RotateLeft(za, c % w))
        if op in ("udiv", "urem", "sdiv", "srem"):
            b = const(rng, w) or 1
            if rng.random() < 0.5:
                b = 1 << rng.randrange(w)
            if op[0] == "s" and w > 8:
                return None
            if w > 16 and b & (b - 1):
                return None
            zb = z3.BitVecVal(b, w)
            f = {"udiv": (T.udiv, z3.UDiv), "urem": (T.urem, z3.URem), "sdiv": (T.sdiv, lambda x, y: x / y), "srem": (T.srem, z3.SRem)}[op]
            return self.put(w, f[0](w, a, b), f[1](za, zb))
        if op == "eq":
            return self.put(1, T.eq(w, a, b), b2(za == zb))
        if op == "ult":
            return self.put(1, T.ult(w, a, b), b2(z3.ULT(za, zb)))
        if op == "ule":
            return self.put(1, T.ule(w, a, b), b2(z3.ULE(za, zb)))
        if op == "slt":
            return self.put(1, T.slt(w, a, b), b2(za < zb))
        if op == "sle":
            return self.put(1, T.sle(w, a, b), b2(za <= zb))
        if op == "ite":
            c, zc = self.get(1, True)
            if rng.random() < 0.15:
                a, za = self.get(1)
                b, zb = self.get(1)
                w = 1
            return self.put(w, T.ite(w, c, a, b), z3.If(zc == BIT[1], za, zb))
        if op == "bits":
            c, zc = self.get(1, True)
            d, zd = self.get(1)
            k = rng.randrange(3)
            if k == 0:
                return self.put(1, T.band(1, c, d), zc & zd)
            if k == 1:
                return self.put(1, T.bor(1, c, d), zc | zd)
            return self.put(1, T.bxor(1, c, d), zc ^ zd)
        if op == "extract":
            k = rng.choice([x for x in self.ws if x <= w])
            lo = rng.choice((0, w - k, rng.randrange(w - k + 1)))
            return self.put(k, T.extract(a, lo, k) if type(a) is not int else (a >> lo) & T.MASK[k], z3.Extract(lo + k - 1, lo, za))
        if op == "concat":
            n = rng.randrange(2, 4)
            ps = []
            while len(ps) < n and sum(p[2] for p in ps) < max(self.ws):
                x = rng.choice(self.ws)
                ps.append(self.get(x) + (x,))
            w = sum(p[2] for p in ps)
            if len(ps) < 2:
                return None
            t = T.concat([(p[0], p[2]) for p in ps])
            z = z3.Concat(*reversed([p[1] for p in ps]))
            k = rng.choice([x for x in self.ws if x <= w])
            lo = rng.choice((0, w - k))
            return self.put(k, T.extract(t, lo, k) if type(t) is not int else (t >> lo) & T.MASK[k], z3.Extract(lo + k - 1, lo, z))
        if op in ("zext", "sext"):
            k = rng.choice([x for x in self.ws + [1] if x < w] or [w])
            if k == w:
                return None
            a, za = self.get(k)
            f = {"zext": (T.zext, z3.ZeroExt), "sext": (T.sext, z3.SignExt)}[op]
            return self.put(w, f[0](k, w, a), f[1](w - k, za))
        if op == "sel":
            i, zi = self.get(64)
            if 8 not in self.ws:
                return None
            return self.put(8, T.sel("m", i), ARR(zi))


def counterexample(s, what, w, t, z, extra=()):
    zt = Z.bv(t, w)
    s.push()
    for e in extra:
        s.add(e)
    s.add(zt != z)
    r = s.check()
    if r == z3.sat:
        m = s.model()
        print("MISMATCH %s width %d\n term %s\n z3 %s\n model %s" % (what, w, T.show(t, 12), z.sexpr(), m))
        sys.exit(1)
    s.pop()
    return r


def assignment(rng):
    return path.Witness(seed=rng.randrange(1, 1 << 30))


def run(secs, seed):
    global Z
    n = {"constructors": 0, "evaluate": 0, "rewriting": 0, "unknown": 0, "changed": 0}
    end = time.time() + secs
    rnd = 0
    while time.time() < end:
        rnd += 1
        rng = random.Random(seed * 1000003 + rnd)
        T.reset()
        path.Z = Z = T.Z3Ctx()
        ws = rng.choice(([8, 16], [8, 32, 64], [64], [8, 64, 128], [4, 8]))
        if ws == [4, 8] or ws == [8, 16]:
            ws = ws + [64]
        g = Gen(rng, ws)
        s = z3.Solver()
        s.set("timeout", 2000)
        wit = assignment(rng)
        made = []
        for _ in range(rng.randrange(10, 60)):
            r = g.step()
            if r is None:
                continue
            t, z = r
            w = z.size()
            made.append((t, z, w))
            if counterexample(s, "constructor", w, t, z) == z3.unknown:
                n["unknown"] += 1
            n["constructors"] += 1
            # evaluation
            v = wit.value(t) if type(t) is not int else t
            zt = Z.bv(t, w)
            sub = [(z3.BitVec(x.p, x.w), z3.BitVecVal(wit.var(x), x.w)) for x in (T.variables([t]) if type(t) is not int else [])]
            if type(t) is int or not any(x.op == "sel" for x in T.topo([t])):
                zv = z3.simplify(z3.substitute(zt, *sub) if sub else zt)
                if not z3.is_bv_value(zv) or zv.as_long() != v:
                    print("MISMATCH evaluate", T.show(t, 12), v, zv)
                    sys.exit(1)
                n["evaluate"] += 1
        # rewriting under a path condition over 64-bit control values
        ctx = path.Ctx()
        xs = [T.var("x64_%d" % i, 64) for i in range(3)]
        for x in xs:
            lo = rng.choice((0, 0, 1, rng.randrange(300)))
            hi = lo + rng.choice((0, 1, 2, 64, 300))
            ctx.assume(T.ule(64, lo, x))
            ctx.assume(T.ule(64, x, hi))
        if rng.random() < 0.5:
            sm = T.add(64, xs[0], xs[1])
            k = ctx.model_value(sm)
            ctx.assume(rng.choice((T.eq(64, sm, k), T.ule(64, sm, k + 7), T.ule(64, k, sm))))
        S = simp.Simp(ctx)
        pcz = [Z.bool_(c) for c in ctx.pc]
        # control terms of the usual shapes
        ctl = list(xs)
        conds = []
        zx = {}
        for _ in range(8):
            a, b = rng.choice(ctl), rng.choice(ctl)
            k = rng.choice((0, 1, 63, 64, 128, rng.randrange(300)))
            c = rng.choice((T.ult(64, a, b), T.ult(64, a, k), T.eq(64, a, k), T.ult(64, k, T.add(64, a, b))))
            if rng.random() < 0.3 and conds:
                c = rng.choice((T.band, T.bor))(1, c, rng.choice(conds))
            if type(c) is int:
                continue
            conds.append(c)
            i = rng.choice((T.add(64, a, k), T.sub(64, a, b), T.sub(64, k, a), T.ite(64, c, a, b), T.zext(8, 64, T.extract(a, 0, 8)),
                            T.band(64, a, T.MASK[64] ^ 63), T.zext(32, 64, T.add(32, T.extract(a, 0, 32), T.sub(32, 0, T.extract(b, 0, 32))))))
            if type(i) is not int:
                ctl.append(i)
        try:
            for _ in range(6):
                if not conds:
                    break
                c, d = rng.choice(conds), rng.choice(conds)
                x = T.sel("m", rng.choice(ctl)) if rng.random() < 0.7 else rng.randrange(256)
                y = T.sel("m", rng.choice(ctl)) if rng.random() < 0.7 else rng.randrange(256)
                t = T.ite(8, c, x, T.ite(8, d, y, rng.choice((x, 0, 7)))) if rng.random() < 0.6 else T.ite(8, c, T.ite(8, d, x, y), y)
                for u in (t, rng.choice(ctl), c):
                    if type(u) is int:
                        continue
                    v = S(u)
                    n["rewriting"] += 1
                    if v is not u:
                        n["changed"] += 1
                    if counterexample(s, "rewriting", u.w, v, Z.bv(u), pcz) == z3.unknown:
                        n["unknown"] += 1
        except path.Inconclusive as e:
            pass
    print("ok: %d rounds, %s" % (rnd, n))


run(float(sys.argv[1]) if len(sys.argv) > 1 else 60, int(sys.argv[2]) if len(sys.argv) > 2 else 1)
