"""Inputs beyond 2^32 bytes: the callers of the compression loops.

The block loops themselves are not run: a call of a `compress1_loop` function is replaced by its contract -
the words become opaque bytes, and the machine records which bytes those words have absorbed.  What is decided is
everything around the loops: which bytes, lengths, counters and flags the hashers pass, over all calls, and the byte count they
report.  A counterexample is only reported when a native run on that many real bytes shows it."""
import re
import terms as T
from path import Inconclusive

NAME = re.compile(r"\d+blake2([bs])_simd.*14compress1_loop")


class Rec:
    """hash words after some compressions; segs: the pieces absorbed, (bytes before, length, array or None, index or bytes, tree?)"""
    __slots__ = ("absorbed", "final", "parts", "size", "segs")

    def __init__(self, absorbed, final, size=64, parts=(), segs=()):
        self.absorbed = absorbed
        self.final = final
        self.size = size
        self.parts = parts
        self.segs = segs


def functions(module):
    """compression loops with the signature ([i8,] ptr input, i64 len, ptr words, iN count, i1, i1, i1)"""
    out = {}
    for name, f in module.fns.items():
        g = NAME.search(name)
        if not g:
            continue
        ts = [t for t, _ in module.fn(name).params]
        cw = 128 if g.group(1) == "b" else 64
        if ts[-7:] == [("p",), ("i", 64), ("p",), ("i", cw), ("i", 1), ("i", 1), ("i", 1)] and len(ts) in (7, 8):
            out[name] = g.group(1)
    return out


class Opaque:
    """per path"""

    def __init__(self, m):
        self.m = m
        self.recs = {}
        self.n = 0
        X = m.X
        if X.hooks is None:
            raise Inconclusive("no hooks in this machine")
        if not X.hooks:
            raise Inconclusive("the compression loops are not recognised in this tree")
        X.hookstate = self

    def find(self, bs):
        """the record whose words these bytes are; None when none of them is opaque"""
        r = None
        for i, b in enumerate(bs):
            e = None if type(b) is int or b.op != "var" else self.recs.get(b.p)
            if e is not None:
                if r is None and i == 0:
                    r = e[0]
                elif e[0] is not r:
                    raise Inconclusive("hash words of several states mixed")
                if e[1] != i:
                    raise Inconclusive("hash words reordered")
            elif r is not None:
                raise Inconclusive("hash words changed outside the compression")
        return r

    def compress(self, X, a, crate):
        m = self.m
        import spec
        v = spec.B if crate == "b" else spec.S
        B, D, cw = v.block, v.fanout, v.cw
        p, n, w, count, last, fin, par = a[-7:]
        bit = [x if type(x) is int else int(m.branch(x)) for x in (last, fin, par)]
        last, fin, par = not bit[0], not bit[1], bool(bit[2])       # first variant of each enum: Yes, Yes, Serial
        bs = m.rd(w, v.out)
        r = self.find(bs)
        if r is None:
            r = Rec(0, False)
        if r.final:
            raise Inconclusive("words compressed further after finalization")
        n = m.norm(n) if type(n) is not int else n
        parts = ()
        seg = ()
        if type(n) is not int and not m.branch(T.bnot1(T.eq(64, n, 0))):
            n = 0
        if type(n) is not int or n:
            X._range_ok(X._ptr(p), n, False)
            o, off = X.resolve(X._ptr(p), 1, 1)
            if type(off) is not int and o.arr is None:
                lo, hi = m.ctx.range(off, o.size - 1)
                if lo != hi:
                    raise Inconclusive("input at an unknown place")
                off = lo
            if o.arr is not None and type(o.arr) is str:
                seg = ((r.absorbed, n, o.arr, T.add(64, o.shift, off), par),)
            else:
                hi = n if type(n) is int else m.ctx.range(n, o.size - off)[1]
                if hi > 1 << 14:
                    raise Inconclusive("long input from an object of known contents")
                bs = [X.get_byte(o, off + k) if not par or k % (D * B) < B else 0 for k in range(hi)]
                seg = ((r.absorbed, n, None, bs, par),)
                if n == D * v.out and fin:
                    try:
                        parts = [self.find(bs[v.out * k:v.out * k + v.out]) for k in range(D)]
                    except Inconclusive:
                        parts = ()
        m.check_eq(count, T.zext(64, cw, r.absorbed), cw, "compression starts with the counter at the number of bytes absorbed so far")
        if par:
            s = (D * B).bit_length() - 1
            if type(n) is int and n == 0:
                more = 0
            else:
                k = T.lshr(64, T.sub(64, n, 1), s)
                rest = T.sub(64, n, T.shl(64, k, s))
                more = T.add(64, T.shl(64, k, B.bit_length() - 1), T.ite(64, T.ult(64, rest, B), rest, B))
                more = T.ite(64, T.eq(64, n, 0), 0, more)
        else:
            more = n
        if fin:
            m.check(T.bor(1, T.bnot1(T.eq(64, more, 0)), T.eq(64, r.absorbed, 0)), "the last block is compressed as the last one")
        new = Rec(T.add(64, r.absorbed, more), bool(fin), v.out, parts, r.segs + seg)
        self.n += 1
        out = []
        for i in range(v.out):
            nm = "opaque%d_%d" % (self.n, i)
            out.append(T.var(nm, 8))
            self.recs[nm] = (new, i)
        m.wr(w, out)

    def stream(self, r, v, par, lane, key, arr, label):
        """what r absorbed is the key block and then the message (of this leaf), in order"""
        m = self.m
        B, D = v.block, v.fanout
        kb = B if key else 0
        for a, n, sa, x, p in r.segs:
            if p != par and (type(n) is not int or n > B):
                raise Inconclusive("stride")
            m.check_eq(a if type(a) is int else T.band(64, a, B - 1), 0 if type(a) is not int else a & ~(B - 1), 64,
                       label + ": only the last block is partial")
            first = T.sub(64, a, kb)
            if par:
                first = T.add(64, T.mul(64, first, D), lane * B)
            if sa is not None:
                if sa != arr or (kb and type(a) is int and a == 0):
                    m.check(0, label + ": input in place")
                m.check_eq(x, first, 64, label + ": input in place")
                continue
            got, want = [], []
            for k, b in enumerate(x):
                t, u = divmod(k, D * B) if par else divmod(k, B)
                if u >= B:
                    continue
                if kb and type(a) is int and a == 0 and t == 0:
                    e = key[u] if u < len(key) else 0
                else:
                    e = T.sel(arr, T.add(64, first, k))
                if type(n) is not int:
                    c = T.ult(64, k, n)
                    b, e = T.ite(8, c, b, 0), T.ite(8, c, e, 0)
                got.append(b)
                want.append(e)
            m.check_bytes(got, want, label + ": buffered input")

    def digest(self, bs, v, par, total, key, arr, label):
        m = self.m
        r = self.find(bs)
        if r is None or not r.final:
            raise Inconclusive("digest is not the result of the compression")
        B, D = v.block, v.fanout
        kb = B if key else 0
        if not par:
            m.check_eq(r.absorbed, T.add(64, total, kb), 64, label + ": bytes absorbed")
            self.stream(r, v, False, 0, key, arr, label)
            return
        if len(r.parts) != D or None in r.parts:
            raise Inconclusive("root node not recognised")
        s = (D * B).bit_length() - 1
        q = T.lshr(64, total, s)
        rest = T.sub(64, total, T.shl(64, q, s))
        q = T.shl(64, q, B.bit_length() - 1)
        for i, x in enumerate(r.parts):
            e = T.ite(64, T.ult(64, rest, i * B), 0, T.sub(64, rest, i * B))
            e = T.ite(64, T.ult(64, e, B), e, B)
            m.check_eq(x.absorbed, T.add(64, T.add(64, q, e), kb), 64, label + ": bytes absorbed by leaf %d" % i)
            self.stream(x, v, True, i, key, arr, label + ": leaf %d" % i)


PERIOD = 251


def phase(arr, pos):
    return (sum(map(ord, arr)) * 7 + pos) % PERIOD


def pattern(ph, n):
    """n message bytes from phase ph on"""
    b = bytes((ph + i) % PERIOD for i in range(min(n, PERIOD)))
    return (b * (n // PERIOD + 1))[:n]


def reference(v, par, total, key, arr):
    """digest of the test message of `total` bytes; None when it would take too long"""
    import hashlib
    H = hashlib.blake2b if v.w == 64 else hashlib.blake2s
    ph = phase(arr, 0)
    B, D = v.block, v.fanout
    if par and key:
        return list(v.parallel_concrete(pattern(ph, total), key=key)) if total <= 1 << 20 else None

    def feed(h, super_, n):
        chunk = super_ * max(1, (1 << 20) // len(super_))
        while n:
            k = min(n, len(chunk))
            h.update(memoryview(chunk)[:k])
            n -= k
    if not par:
        h = H(key=key)
        feed(h, pattern(ph, PERIOD), total)
        return list(h.digest())
    big = pattern(ph, PERIOD * B * D)
    q, rest = divmod(total, B * D)
    root = H(fanout=D, depth=2, node_depth=1, inner_size=v.out, last_node=True)
    for i in range(D):
        mine = b"".join(big[k * B * D + i * B:k * B * D + i * B + B] for k in range(PERIOD))
        h = H(fanout=D, depth=2, node_offset=i, inner_size=v.out, last_node=i == D - 1)
        feed(h, mine, q * B + min(max(rest - i * B, 0), B))
        root.update(h.digest())
    return list(root.digest())
