"""Hash-consed bit-vector terms.

A value is either a Python int (concrete, already reduced modulo 2^width) or an
`N` (symbolic term).  Constructors do constant folding and cheap structural
clean-up only (extract/concat bookkeeping, neutral elements); all arithmetic
reasoning is left to the SMT solver (see sweep.py, path.py).
"""
import itertools


class N:
    __slots__ = ("id", "op", "w", "a", "p", "d", "h")

    def __init__(self, id, op, w, a, p):
        self.id = id
        self.op = op
        self.w = w
        self.a = a
        self.p = p
        # d: depends on array contents (message bytes) or on a variable named d_*, or is so deep that
        # it is treated alike (a digest of lengths only)
        h = 0
        if op == "sel":
            d = True
        elif op == "var":
            d = p.startswith("d_")
        else:
            d = False
            for x in a:
                if type(x) is not int:
                    if x.h >= h:
                        h = x.h + 1
                    if x.d:
                        d = True
            if h > 40:
                d = True
        self.d = d
        self.h = h

    def __repr__(self):
        return show(self, 4)

    def __bool__(self):
        raise TypeError("symbolic term used as a Python bool: %r" % (self,))


def show(n, d):
    if type(n) is int:
        return hex(n)
    if n.op == "var":
        return n.p
    if d == 0:
        return "#%d" % n.id
    return "(%s%s %s)" % (n.op, "" if n.p is None else str(n.p), " ".join(show(x, d - 1) for x in n.a))


_ids = itertools.count(1)
_tab = {}
MASK = [(1 << i) - 1 for i in range(0, 1025)]


def reset():
    """Forget all terms (between independent paths)."""
    _tab.clear()


def table_size():
    return len(_tab)


def _mk(op, w, a, p=None):
    k = (op, w, p) + a
    n = _tab.get(k)
    if n is None:
        n = _tab[k] = N(next(_ids), op, w, a, p)
    return n


PIN = None        # a Witness: every input is the constant it assigns (concrete replay)


def var(name, w):
    if PIN is not None:
        v = PIN.vars.get(name)
        return PIN.default(name, w) if v is None else v
    k = ("var", w, name)
    n = _tab.get(k)
    if n is None:
        n = _tab[k] = N(next(_ids), "var", w, (), name)
    return n


class Unsupported(Exception):
    pass


_pats = {}


def pattern(arr):
    """"name@N": an input array whose first N bytes are fixed (0 for other arrays)"""
    r = _pats.get(arr)
    if r is None:
        r = _pats[arr] = int(arr.split("@")[1]) if "@" in arr else 0
    return r


def pattern_byte(arr, idx):
    return (idx * 167 + (idx >> 6) * 13 + ord(arr[-1 - len(arr.split("@")[1]) - 1]) * 31) & 255


def sel(arr, idx):
    """byte of the symbolic array `arr` at 64-bit index idx"""
    n = pattern(arr)
    if n:
        if type(idx) is not int:
            raise Unsupported("symbolic index into a partly fixed input")
        if idx < n:
            return pattern_byte(arr, idx)
    if PIN is not None:
        return PIN.arr(arr, idx)
    return _mk("sel", 8, (idx,), arr)


# ---------------------------------------------------------------- arithmetic
# Sums are kept as flat linear forms: op "add", a = (t1, .., tk[, const]) with the
# terms ordered by id, p = None (all coefficients 1) or the tuple of coefficients
# of t1..tk.
def _lin(w, x, k, d):
    """accumulate k*x into the dict d (term -> coefficient); returns the constant part"""
    if type(x) is int:
        return x * k
    if x.op == "add":
        a = x.a
        c = 0
        n = len(a)
        if type(a[-1]) is int:
            n -= 1
            c = a[-1] * k
        p = x.p
        for i in range(n):
            t = a[i]
            d[t] = d.get(t, 0) + (k if p is None else k * p[i])
        return c
    d[x] = d.get(x, 0) + k
    return 0


def _byid(x):
    return x.id


def _mklin(w, d, c):
    m = MASK[w]
    c &= m
    ones = True
    drop = False
    for k in d.values():
        if k != 1:
            ones = False
            if k & m == 0:
                drop = True
    if drop:
        d = {t: k for t, k in d.items() if k & m}
    if not d:
        return c
    ts = sorted(d, key=_byid)
    if len(ts) == 1 and not c:
        t = ts[0]
        k = d[t] & m
        if k == 1:
            return t
        if k & (k - 1) == 0:
            return shl(w, t, k.bit_length() - 1)
    p = None if ones else tuple([d[t] & m for t in ts])
    if p is not None and all(k == 1 for k in p):
        p = None
    if c:
        ts.append(c)
    elif len(ts) == 1 and p is None:
        return ts[0]
    return _mk("add", w, tuple(ts), p)


def add(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return (a + b) & MASK[w]
        a, b = b, a
    if type(b) is int and b == 0:
        return a
    if a is b:
        return shl(w, a, 1)
    d = {}
    c = _lin(w, a, 1, d) + _lin(w, b, 1, d)
    return _mklin(w, d, c)


def sub(w, a, b):
    if type(b) is int:
        return add(w, a, (-b) & MASK[w])
    if a is b:
        return 0
    d = {}
    c = _lin(w, a, 1, d) + _lin(w, b, -1, d)
    return _mklin(w, d, c)


def neg(w, a):
    return sub(w, 0, a)


def mul(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return (a * b) & MASK[w]
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(w, a, b.bit_length() - 1)
        d = {}
        c = _lin(w, a, b, d)
        return _mklin(w, d, c)
    if a.id > b.id:
        a, b = b, a
    return _mk("mul", w, (a, b))


def band(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == MASK[w]:
            return a
        # mask of contiguous low bits -> zext(extract)
        if b & (b + 1) == 0:
            k = b.bit_length()
            return zext(k, w, extract(a, 0, k))
        # mask of contiguous high bits
        inv = b ^ MASK[w]
        if inv & (inv + 1) == 0:
            k = inv.bit_length()
            return concat([(0, k), (extract(a, k, w - k), w - k)])
        r = _runs(w, a, b, 0)
        if r is not None:
            return r
        return _mk("and", w, (a, b))
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return _mk("and", w, (a, b))


def _runs(w, a, c, fix):
    """a with the bits where c == fix replaced by fix, as a concatenation; None when that takes many pieces"""
    out = []
    i = 0
    while i < w:
        b = c >> i & 1
        j = i + 1
        while j < w and c >> j & 1 == b:
            j += 1
        if b == fix:
            out.append((MASK[j - i] if fix else 0, j - i))
        else:
            out.append((extract(a, i, j - i), j - i))
        i = j
        if len(out) > 9:
            return None
    return concat(out)


def bor(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if b == MASK[w]:
            return b
        if w > 1:
            r = _runs(w, a, b, 1)
            if r is not None:
                return r
        return _mk("or", w, (a, b))
    if a is b:
        return a
    # or of disjoint concats (byte assembly)
    r = _or_concat(w, a, b)
    if r is not None:
        return r
    if a.id > b.id:
        a, b = b, a
    return _mk("or", w, (a, b))


def _parts(a):
    if a.op == "concat":
        return list(zip(a.a, a.p))
    return None


def coefs(n):
    """[(coefficient, term)] and the constant of a sum node"""
    a = n.a
    c = 0
    if type(a[-1]) is int:
        c = a[-1]
        a = a[:-1]
    p = n.p or (1,) * len(a)
    return list(zip(p, a)), c


def linear(w, ps, c):
    d = {}
    for k, t in ps:
        c += _lin(w, t, k, d)
    return _mklin(w, d, c)


def _or_concat(w, a, b):
    pa, pb = _parts(a), _parts(b)
    if pa is None or pb is None:
        return None
    out = []
    ia = ib = 0
    ca = list(pa)
    cb = list(pb)
    while ca and cb:
        (x, wx), (y, wy) = ca[0], cb[0]
        k = min(wx, wy)
        xs = extract_v(x, wx, 0, k)
        ys = extract_v(y, wy, 0, k)
        if type(xs) is int and xs == 0:
            out.append((ys, k))
        elif type(ys) is int and ys == 0:
            out.append((xs, k))
        else:
            return None
        if wx > k:
            ca[0] = (extract_v(x, wx, k, wx - k), wx - k)
        else:
            ca.pop(0)
        if wy > k:
            cb[0] = (extract_v(y, wy, k, wy - k), wy - k)
        else:
            cb.pop(0)
    return concat(out)


def _halves(x):
    """a 64-bit value assembled from two unrelated 32-bit halves"""
    return type(x) is not int and x.op == "concat" and x.p == (32, 32) and not (
        type(x.a[0]) is not int and type(x.a[1]) is not int and
        x.a[0].op == "extract" and x.a[1].op == "extract" and x.a[0].a[0] is x.a[1].a[0])


# exclusive ors are flat: op "xor", a = (t1, .., tk[, const]) ordered by id
def bxor(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if w == 1:
            return bnot1(a)
    elif a is b:
        return 0
    elif a.op == "concat" and b.op == "concat":
        r = _or_concat(w, a, b)
        if r is not None:
            return r
    if w == 64 and (_halves(a) or _halves(b)):
        return concat([(bxor(32, extract_v(a, 64, 0, 32), extract_v(b, 64, 0, 32)), 32),
                       (bxor(32, extract_v(a, 64, 32, 32), extract_v(b, 64, 32, 32)), 32)])
    d = {}
    c = 0
    for x in (a, b):
        if type(x) is not int and x.op == "concat":
            x, k = _pull(x)
            c ^= k
        if type(x) is int:
            c ^= x
        elif x.op == "xor":
            for t in x.a:
                if type(t) is int:
                    c ^= t
                elif t in d:
                    del d[t]
                else:
                    d[t] = 1
        elif x in d:
            del d[x]
        else:
            d[x] = 1
    if not d:
        return c
    ts = sorted(d, key=_byid)
    if len(ts) == 1:
        t = ts[0]
        if c == 0:
            return t
        if t.op == "concat" and (not t.d or int in [type(y) for y in t.a]):
            o = 0
            out = []
            for y, wy in zip(t.a, t.p):
                out.append((bxor(wy, y, (c >> o) & MASK[wy]), wy))
                o += wy
            return concat(out)
    if c:
        ts.append(c)
    return _mk("xor", w, tuple(ts))


def _pull(x):
    """x = (term with the constant parts cleared) ^ constant"""
    k = 0
    o = 0
    out = []
    for y, wy in zip(x.a, x.p):
        if type(y) is int:
            k |= y << o
            y = 0
        elif y.op == "xor" and type(y.a[-1]) is int:
            k |= y.a[-1] << o
            y = bxor(wy, y, y.a[-1])
        out.append((y, wy))
        o += wy
    if k == 0:
        return x, 0
    return concat(out), k



def bnot1(a):
    if type(a) is int:
        return a ^ 1
    if a.op == "not":
        return a.a[0]
    return _mk("not", 1, (a,))


def shl(w, a, b):
    if type(b) is int:
        if b == 0:
            return a
        if b >= w:
            return 0
        if type(a) is int:
            return (a << b) & MASK[w]
        return concat([(0, b), (extract(a, 0, w - b), w - b)])
    return _mk("shl", w, (a, b))


def lshr(w, a, b):
    if type(b) is int:
        if b == 0:
            return a
        if b >= w:
            return 0
        if type(a) is int:
            return a >> b
        return concat([(extract(a, b, w - b), w - b), (0, b)])
    return _mk("lshr", w, (a, b))


def ashr(w, a, b):
    if type(b) is int:
        if b == 0:
            return a
        if type(a) is int:
            s = a - (1 << w) if a >> (w - 1) else a
            return (s >> min(b, w - 1)) & MASK[w]
    return _mk("ashr", w, (a, b))


def rotl(w, a, c):
    c %= w
    if c == 0:
        return a
    if type(a) is int:
        return ((a << c) | (a >> (w - c))) & MASK[w]
    return concat([(extract(a, w - c, c), c), (extract(a, 0, w - c), w - c)])


def udiv(w, a, b):
    if type(b) is int and b:
        if type(a) is int:
            return a // b
        if b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
    return _mk("udiv", w, (a, b))


def urem(w, a, b):
    if type(b) is int and b:
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            return band(w, a, b - 1)
    return _mk("urem", w, (a, b))


def _sgn(w, a):
    return a - (1 << w) if a >> (w - 1) else a


def sdiv(w, a, b):
    if type(a) is int and type(b) is int and b:
        x, y = _sgn(w, a), _sgn(w, b)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & MASK[w]
    return _mk("sdiv", w, (a, b))


def srem(w, a, b):
    if type(a) is int and type(b) is int and b:
        x, y = _sgn(w, a), _sgn(w, b)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & MASK[w]
    return _mk("srem", w, (a, b))


# ---------------------------------------------------------------- comparison
def eq(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if type(b) is int:
        if w == 1:
            return a if b else bnot1(a)
        if a.op == "concat":
            # compare against constant: if some constant part differs -> 0
            o = 0
            syms = []
            for x, wx in zip(a.a, a.p):
                c = (b >> o) & MASK[wx]
                if type(x) is int:
                    if x != c:
                        return 0
                else:
                    syms.append((x, wx, c))
                o += wx
            if len(syms) == 1:
                x, wx, c = syms[0]
                return eq(wx, x, c)
        if a.op == "add" and type(a.a[-1]) is int:
            c = a.a[-1]
            return eq(w, sub(w, a, c), (b - c) & MASK[w])
        if a.op == "ite":
            c, x, y = a.a
            if type(x) is int and type(y) is int:
                if x == b and y == b:
                    return 1
                if x == b:
                    return c
                if y == b:
                    return bnot1(c)
                return 0
        return _mk("eq", 1, (a, b), w)
    if a.op == "add" and b.op == "add" and type(a.a[-1]) is int and type(b.a[-1]) is int:
        c = a.a[-1]
        return eq(w, sub(w, a, c), sub(w, b, c))
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", 1, (a, b), w)


def _zbound(a):
    """an upper bound on an unsigned term (cheap, syntactic)"""
    if type(a) is int:
        return a
    if a.op == "concat":
        o = 0
        r = 0
        for x, wx in zip(a.a, a.p):
            r += (x if type(x) is int else MASK[wx]) << o
            o += wx
        return r
    if a.op == "ite":
        return max(_zbound(a.a[1]), _zbound(a.a[2]))
    return MASK[a.w]


def ult(w, a, b):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return eq(w, a, 0)
        if _zbound(a) < b:
            return 1
    elif type(a) is int:
        if a == MASK[w]:
            return 0
        if a == 0:
            return bnot1(eq(w, b, 0))
        if a >= _zbound(b):
            return 0
    return _mk("ult", 1, (a, b), w)


def ule(w, a, b):
    return bnot1(ult(w, b, a))


def slt(w, a, b):
    if type(a) is int and type(b) is int:
        return 1 if _sgn(w, a) < _sgn(w, b) else 0
    if a is b:
        return 0
    return _mk("slt", 1, (a, b), w)


def sle(w, a, b):
    return bnot1(slt(w, b, a))


def ite(w, c, a, b):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == "not":
        c = c.a[0]
        a, b = b, a
    if w == 1:
        if type(a) is int:
            return bor(1, c, b) if a else band(1, bnot1(c), b)
        if type(b) is int:
            return bor(1, bnot1(c), a) if b else band(1, c, a)
    return _mk("ite", w, (c, a, b))


# ---------------------------------------------------------------- structure
def extract_v(x, wx, lo, n):
    if type(x) is int:
        return (x >> lo) & MASK[n]
    return extract(x, lo, n)


def _shallow(x, fuel):
    fuel[0] -= 1
    if fuel[0] < 0:
        return False
    for y in x.a:
        if type(y) is not int and not _shallow(y, fuel):
            return False
    return True


def extract(x, lo, n):
    """n bits of x starting at bit lo"""
    if type(x) is int:
        return (x >> lo) & MASK[n]
    if n == x.w:
        return x
    op = x.op
    if op == "extract":
        return extract(x.a[0], x.p + lo, n)
    if op == "concat":
        o = 0
        out = []
        hi = lo + n
        for y, wy in zip(x.a, x.p):
            s = max(lo, o)
            e = min(hi, o + wy)
            if s < e:
                out.append((extract_v(y, wy, s - o, e - s), e - s))
            o += wy
            if o >= hi:
                break
        return concat(out)
    if op == "ite" and type(x.a[1]) is int and type(x.a[2]) is int:
        return ite(n, x.a[0], (x.a[1] >> lo) & MASK[n], (x.a[2] >> lo) & MASK[n])
    if op in ("and", "or") and type(x.a[1]) is int and lo == 0 and n <= 64 < x.w:
        f = {"and": band, "or": bor}[op]
        return f(n, extract(x.a[0], lo, n), (x.a[1] >> lo) & MASK[n])
    if op == "xor" and (x.w > 64 and n <= 64 or not x.d and _shallow(x, [40])):
        r = 0
        for t in x.a:
            r = bxor(n, r, extract_v(t, x.w, lo, n))
        return r
    if op == "add" and lo == 0 and n >= 32 and (len(x.a) <= 3 or not x.d):
        d = {}
        c = 0
        for i, t in enumerate(x.a):
            k = 1 if x.p is None or i >= len(x.p) else x.p[i]
            c += _lin(n, extract_v(t, x.w, 0, n), k, d)
        return _mklin(n, d, c)
    return _mk("extract", n, (x,), lo)


def concat(parts):
    """parts: list of (value, width), least significant first"""
    out = []
    for x, wx in parts:
        if type(x) is not int and x.op == "concat":
            out.extend(zip(x.a, x.p))
        else:
            out.append((x, wx))
    # merge neighbours
    res = []
    for x, wx in out:
        if wx == 0:
            continue
        if res:
            y, wy = res[-1]
            if type(x) is int:
                if type(y) is int:
                    res[-1] = (y | (x << wy), wy + wx)
                    continue
            elif type(y) is not int:
                if x.op == "extract":
                    if y.op == "extract" and y.a[0] is x.a[0] and y.p + wy == x.p:
                        res[-1] = (extract(y.a[0], y.p, wy + wx), wy + wx)
                        continue
                    if x.a[0] is y and x.p == wy:   # cannot happen (y is full) but harmless
                        pass
        res.append((x, wx))
    if len(res) == 1:
        return res[0][0]
    w = sum(p[1] for p in res)
    return _mk("concat", w, tuple(p[0] for p in res), tuple(p[1] for p in res))


def zext(wf, wt, x):
    if type(x) is int:
        return x
    if wf == wt:
        return x
    return concat([(x, wf), (0, wt - wf)])


def sext(wf, wt, x):
    if type(x) is int:
        return _sgn(wf, x) & MASK[wt]
    if wf == wt:
        return x
    if wf == 1:
        return ite(wt, x, MASK[wt], 0)
    return _mk("sext", wt, (x,), wf)


# ---------------------------------------------------------------- traversal
def topo(roots, stop=()):
    """all N reachable from roots, children before parents (by id order: children
    are always created first); does not descend below ids in `stop`"""
    seen = {}
    st = [r for r in roots if type(r) is not int and r.id not in stop]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        for c in n.a:
            if type(c) is not int and c.id not in seen and c.id not in stop:
                st.append(c)
    return [seen[k] for k in sorted(seen)]


def _ev1(n, g, env, arrf):
    op = n.op
    w = n.w
    a = n.a
    if op == "var":
        return env(n)
    v = [x if type(x) is int else g[x.id] for x in a]
    if op == "add":
        p = n.p
        if p is None:
            return sum(v) & MASK[w]
        r = sum([k * x for k, x in zip(p, v)])
        if len(v) > len(p):
            r += v[-1]
        return r & MASK[w]
    if op == "xor":
        r = v[0]
        for x in v[1:]:
            r ^= x
        return r
    if op == "concat":
        o = 0
        r = 0
        for x, wx in zip(v, n.p):
            r |= x << o
            o += wx
        return r
    if op == "extract":
        return (v[0] >> n.p) & MASK[w]
    if op == "sel":
        return arrf(n.p, v[0])
    if op == "ite":
        return v[1] if v[0] else v[2]
    if op == "eq":
        return 1 if v[0] == v[1] else 0
    if op == "ult":
        return 1 if v[0] < v[1] else 0
    if op == "not":
        return v[0] ^ 1
    if op == "and":
        return v[0] & v[1]
    if op == "or":
        return v[0] | v[1]
    if op == "mul":
        return (v[0] * v[1]) & MASK[w]
    if op == "slt":
        return 1 if _sgn(n.p, v[0]) < _sgn(n.p, v[1]) else 0
    if op == "shl":
        return (v[0] << v[1]) & MASK[w] if v[1] < w else 0
    if op == "lshr":
        return v[0] >> v[1] if v[1] < w else 0
    if op == "ashr":
        return (_sgn(w, v[0]) >> min(v[1], w - 1)) & MASK[w]
    if op == "sext":
        return _sgn(n.p, v[0]) & MASK[w]
    if op == "udiv":
        return v[0] // v[1] if v[1] else MASK[w]
    if op == "urem":
        return v[0] % v[1] if v[1] else v[0]
    if op == "sdiv":
        return sdiv(w, v[0], v[1]) if v[1] else (1 if _sgn(w, v[0]) < 0 else MASK[w])
    if op == "srem":
        return srem(w, v[0], v[1]) if v[1] else v[0]
    raise KeyError(op)


def evaluate(nodes, env, arrf, g=None):
    """evaluate a topologically sorted list; returns dict id->int"""
    if g is None:
        g = {}
    for n in nodes:
        if n.id not in g:
            g[n.id] = _ev1(n, g, env, arrf)
    return g


def eval1(x, env, arrf):
    if type(x) is int:
        return x
    return evaluate(topo([x]), env, arrf)[x.id]


def variables(roots):
    return [n for n in topo(roots) if n.op == "var"]


# ---------------------------------------------------------------- z3
class Z3Ctx:
    """translation of terms to z3 (memoised by term id)"""

    def __init__(self):
        import z3
        self.z3 = z3
        self.memo = {}
        self.arrs = {}

    def arr(self, name):
        f = self.arrs.get(name)
        if f is None:
            z3 = self.z3
            f = self.arrs[name] = z3.Function("A_" + name, z3.BitVecSort(64), z3.BitVecSort(8))
        return f

    def const(self, v, w):
        return self.z3.BitVecVal(v, w)

    def bool_(self, x):
        z3 = self.z3
        if type(x) is int:
            return z3.BoolVal(bool(x))
        r = self.bv(x)
        return self.memo[x.id][1] if self.memo[x.id][1] is not None else r == z3.BitVecVal(1, 1)

    def bv(self, x, w=None, leaf=None):
        if type(x) is int:
            return self.const(x, w)
        m = self.memo
        if x.id in m:
            return m[x.id][0]
        st = [x]
        while st:
            n = st[-1]
            if n.id in m:
                st.pop()
                continue
            todo = [c for c in n.a if type(c) is not int and c.id not in m]
            if todo:
                st.extend(todo)
                continue
            m[n.id] = self._conv(n)
            st.pop()
        return m[x.id][0]

    def _g(self, x, w):
        return self.const(x, w) if type(x) is int else self.memo[x.id][0]

    def _gb(self, x):
        z3 = self.z3
        if type(x) is int:
            return z3.BoolVal(bool(x))
        bv, b = self.memo[x.id]
        return b if b is not None else bv == z3.BitVecVal(1, 1)

    def _conv(self, n):
        z3 = self.z3
        op = n.op
        w = n.w
        a = n.a
        g = self._g
        if op == "var":
            return (z3.BitVec(n.p, w), None)

        def fb(b):
            return (z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), b)
        if op == "sel":
            return (self.arr(n.p)(g(a[0], 64)), None)
        if op == "eq":
            if n.p == 1:
                return fb(self._gb(a[0]) == self._gb(a[1]))
            return fb(g(a[0], n.p) == g(a[1], n.p))
        if op == "ult":
            return fb(z3.ULT(g(a[0], n.p), g(a[1], n.p)))
        if op == "slt":
            return fb(g(a[0], n.p) < g(a[1], n.p))
        if op == "not":
            return fb(z3.Not(self._gb(a[0])))
        if w == 1 and op in ("and", "or"):
            f = {"and": z3.And, "or": z3.Or}[op]
            return fb(f(self._gb(a[0]), self._gb(a[1])))
        if w == 1 and op == "xor":
            r = self._gb(a[0])
            for x in a[1:]:
                r = z3.Xor(r, self._gb(x))
            return fb(r)
        if op == "xor":
            r = g(a[0], w)
            for x in a[1:]:
                r = r ^ g(x, w)
            return (r, None)
        if op == "add":
            r = None
            neg = None
            p = n.p
            for i, x in enumerate(a):
                k = 1 if p is None or i >= len(p) else p[i]
                t = g(x, w)
                if k == MASK[w]:
                    neg = t if neg is None else neg + t
                    continue
                if k != 1:
                    t = t * z3.BitVecVal(k, w)
                r = t if r is None else r + t
            if neg is not None:
                r = -neg if r is None else r - neg
            return (r, None)
        if op == "ite":
            return (z3.If(self._gb(a[0]), g(a[1], w), g(a[2], w)), None)
        if op == "concat":
            ps = [g(x, wx) for x, wx in zip(a, n.p)]
            return (z3.Concat(*reversed(ps)), None)
        if op == "extract":
            return (z3.Extract(n.p + w - 1, n.p, g(a[0], a[0].w)), None)
        if op == "sext":
            return (z3.SignExt(w - n.p, g(a[0], n.p)), None)
        x = g(a[0], w)
        y = g(a[1], w)
        if op == "and":
            return (x & y, None)
        if op == "or":
            return (x | y, None)
        if op == "mul":
            return (x * y, None)
        if op == "shl":
            return (x << y, None)
        if op == "lshr":
            return (z3.LShR(x, y), None)
        if op == "ashr":
            return (x >> y, None)
        if op == "udiv":
            return (z3.UDiv(x, y), None)
        if op == "urem":
            return (z3.URem(x, y), None)
        if op == "sdiv":
            return (x / y, None)
        if op == "srem":
            return (z3.SRem(x, y), None)
        raise KeyError(op)
