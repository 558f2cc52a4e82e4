"""Compilation of parsed IR functions into Python closures (see llexec.Exec)."""
import re
import terms as T
from terms import N, add, sub, eq, ult, slt, ite, concat, extract
import llparse as L
from llexec import UB, Panic, Unsupported, Stop, Limit

MASK = T.MASK


class CFn:
    __slots__ = ("name", "tmpl", "entry", "blocks", "features", "nparams")


SCALAR = {
    "add": T.add, "sub": T.sub, "mul": T.mul, "xor": T.bxor, "and": T.band, "or": T.bor, "shl": T.shl,
    "lshr": T.lshr, "ashr": T.ashr, "udiv": T.udiv, "urem": T.urem, "sdiv": T.sdiv, "srem": T.srem,
}


def cmp_fn(pred):
    if pred == "eq":
        return T.eq
    if pred == "ne":
        return lambda w, a, b: T.bnot1(T.eq(w, a, b))
    if pred == "ult":
        return T.ult
    if pred == "ugt":
        return lambda w, a, b: T.ult(w, b, a)
    if pred == "ule":
        return lambda w, a, b: T.bnot1(T.ult(w, b, a))
    if pred == "uge":
        return lambda w, a, b: T.bnot1(T.ult(w, a, b))
    if pred == "slt":
        return T.slt
    if pred == "sgt":
        return lambda w, a, b: T.slt(w, b, a)
    if pred == "sle":
        return lambda w, a, b: T.bnot1(T.slt(w, b, a))
    if pred == "sge":
        return lambda w, a, b: T.bnot1(T.slt(w, a, b))
    raise Unsupported("icmp " + pred)


def bitcast(v, t, t2):
    if t == t2:
        return v
    kt, k2 = t[0], t2[0]
    if kt != "v" and k2 != "v":
        return v
    if kt == "v":
        sw = L.bits_of(t[2])
        if k2 == "v":
            dw = L.bits_of(t2[2])
            if dw == sw:
                return v
            if dw > sw:
                r = dw // sw
                if dw % sw == 0:
                    out = []
                    for i in range(0, t[1], r):
                        out.append(concat([(v[i + j], sw) for j in range(r)]))
                    return tuple(out)
            elif sw % dw == 0:
                out = []
                for x in v:
                    for j in range(0, sw, dw):
                        out.append(T.extract_v(x, sw, j, dw))
                return tuple(out)
        tot = concat([(x, sw) for x in v])
        if k2 != "v":
            return tot
    else:
        tot = v
    dw = L.bits_of(t2[2])
    return tuple([T.extract_v(tot, dw * t2[1], i * dw, dw) for i in range(t2[1])])


def fsh(w, a, b, c, left):
    if type(c) is not int:
        raise Unsupported("funnel shift by a variable amount")
    c %= w
    if c == 0:
        return a if left else b
    if not left:
        c = w - c
    # top w bits of (a:b) << c
    return concat([(T.extract_v(b, w, w - c, c), c), (T.extract_v(a, w, 0, w - c), w - c)])


def ctz(w, x, rev):
    if type(x) is int:
        if rev:
            return w - x.bit_length()
        return w if x == 0 else (x & -x).bit_length() - 1
    r = w
    rng = range(w) if rev else range(w - 1, -1, -1)
    for i in rng:
        r = ite(w, extract(x, i, 1), (w - 1 - i) if rev else i, r)
    return r


def popcnt(w, x):
    r = 0
    for i in range(w):
        r = add(w, r, T.zext(1, w, T.extract_v(x, w, i, 1)))
    return r


def bswap(w, x):
    return concat([(T.extract_v(x, w, w - 8 - i, 8), 8) for i in range(0, w, 8)])


def bitrev(w, x):
    return concat([(T.extract_v(x, w, w - 1 - i, 1), 1) for i in range(w)])


def _sat(w, a, b, kind):
    if kind == "usub":
        return ite(w, ult(w, a, b), 0, sub(w, a, b))
    s = add(w, a, b)
    return ite(w, ult(w, s, a), MASK[w], s)


def _ovf(w, a, b, kind):
    if kind == "uadd":
        s = add(w, a, b)
        return (s, ult(w, s, a))
    if kind == "usub":
        return (sub(w, a, b), ult(w, a, b))
    if kind == "umul":
        p = T.mul(2 * w, T.zext(w, 2 * w, a), T.zext(w, 2 * w, b))
        return (T.extract_v(p, 2 * w, 0, w), T.bnot1(eq(w, T.extract_v(p, 2 * w, w, w), 0)))
    if kind == "sadd":
        s = T.add(w + 1, T.sext(w, w + 1, a), T.sext(w, w + 1, b))
    elif kind == "ssub":
        s = T.sub(w + 1, T.sext(w, w + 1, a), T.sext(w, w + 1, b))
    else:
        s = T.mul(2 * w, T.sext(w, 2 * w, a), T.sext(w, 2 * w, b))
        r = T.extract_v(s, 2 * w, 0, w)
        return (r, T.bnot1(eq(2 * w, T.sext(w, 2 * w, r), s)))
    r = T.extract_v(s, w + 1, 0, w)
    return (r, T.bnot1(eq(w + 1, T.sext(w, w + 1, r), s)))


def lanewise(t, f):
    """lift scalar function f(w, *lanes) over type t"""
    if t[0] == "v":
        w = L.bits_of(t[2])
        return lambda *vs: tuple([f(w, *xs) for xs in zip(*vs)])
    w = L.bits_of(t)
    return lambda *vs: f(w, *vs)


def umin(w, a, b):
    return ite(w, ult(w, a, b), a, b)


def umax(w, a, b):
    return ite(w, ult(w, a, b), b, a)


def intrinsic(X, name, argts, rt):
    """callable(args list) for an llvm.* intrinsic"""
    n = name[6:] if name.startswith("@llvm.") else name
    b = n.split(".")[0]
    if b in ("memcpy", "memmove"):
        mv = b == "memmove"
        return lambda a: X.memcpy(a[0], a[1], a[2], mv)
    if b == "memset":
        return lambda a: X.memset(a[0], a[1], a[2])
    if b == "assume":
        return lambda a: None
    if b in ("umin", "umax", "smin", "smax"):
        def sel_(w, x, y):
            if b == "umin":
                return umin(w, x, y)
            if b == "umax":
                return umax(w, x, y)
            c = slt(w, x, y)
            return ite(w, c, x, y) if b == "smin" else ite(w, c, y, x)
        f = lanewise(rt, sel_)
        if rt[0] != "v":
            w0 = L.bits_of(rt)
            less = ult if b[0] == "u" else slt

            def mm(a):
                c = less(w0, a[0], a[1])
                k = X.ctx.decide(c)
                return ite(w0, c if k is None else k, a[0], a[1]) if b[1:] == "min" else ite(w0, c if k is None else k, a[1], a[0])
            return mm
        return lambda a: f(a[0], a[1])
    if b in ("fshl", "fshr"):
        f = lanewise(rt, lambda w, x, y, c: fsh(w, x, y, c, b == "fshl"))
        return lambda a: f(a[0], a[1], a[2])
    if b in ("usub", "uadd") and ".sat" in n:
        f = lanewise(rt, lambda w, x, y: _sat(w, x, y, b))
        if rt[0] != "v":
            w0 = L.bits_of(rt)

            def sat(a):
                x, y = a[0], a[1]
                if b == "usub":
                    c, yes, no = ult(w0, x, y), 0, sub(w0, x, y)
                else:
                    no = add(w0, x, y)
                    c, yes = ult(w0, no, x), MASK[w0]
                k = X.ctx.decide(c)
                return ite(w0, c if k is None else k, yes, no)
            return sat
        return lambda a: f(a[0], a[1])
    if ".with.overflow" in n:
        w = L.bits_of(rt[1][0])
        return lambda a: _ovf(w, a[0], a[1], b)
    if b in ("ctlz", "cttz"):
        f = lanewise(rt, lambda w, x: ctz(w, x, b == "ctlz"))
        return lambda a: f(a[0])
    if b == "ctpop":
        f = lanewise(rt, popcnt)
        return lambda a: f(a[0])
    if b == "bswap":
        f = lanewise(rt, bswap)
        return lambda a: f(a[0])
    if b == "bitreverse":
        f = lanewise(rt, bitrev)
        return lambda a: f(a[0])
    if b == "abs":
        f = lanewise(rt, lambda w, x: ite(w, slt(w, x, 0), T.neg(w, x), x))
        return lambda a: f(a[0])
    if b in ("ucmp", "scmp"):
        lt = T.ult if b == "ucmp" else T.slt
        rw = L.bits_of(rt)
        aw = L.bits_of(argts[0])
        return lambda a: ite(rw, lt(aw, a[0], a[1]), MASK[rw], ite(rw, lt(aw, a[1], a[0]), 1, 0))
    if n.startswith("is.constant"):
        return lambda a: 0
    if n.startswith("threadlocal.address"):
        return lambda a: a[0]
    if n.startswith("expect"):
        return lambda a: a[0]
    if n.startswith("load.relative"):
        def lr(a):
            d = X.load_scalar(add(64, a[0], a[1]), 4, 32, 4)
            return add(64, a[0], T.sext(32, 64, d))
        return lr
    if n.startswith("vector.reduce."):
        k = n.split(".")[2]
        w = L.bits_of(argts[0][2])
        g = {"add": T.add, "or": T.bor, "and": T.band, "xor": T.bxor, "mul": T.mul, "umin": umin, "umax": umax}.get(k)
        if g is None:
            raise Unsupported(name)

        def red(a):
            r = a[0][0]
            for x in a[0][1:]:
                r = g(w, r, x)
            return r
        return red
    if n in ("trap", "debugtrap"):
        def tr(a):
            raise Panic("llvm.trap")
        return tr
    if n.startswith("x86.xgetbv"):
        return lambda a: X.cpu.xgetbv(a[0])
    if n.startswith("x86."):
        return x86(X, n, rt)
    if n.startswith("sideeffect") or n.startswith("donothing") or n.startswith("prefetch"):
        return lambda a: None
    if n.startswith("stacksave"):
        return lambda a: 0
    if n.startswith("stackrestore"):
        return lambda a: None
    raise Unsupported("intrinsic " + name)


def x86(X, n, rt):
    """the few target intrinsics that LLVM does not express as generic IR"""
    if n in ("x86.ssse3.pshuf.b.128", "x86.avx2.pshuf.b"):
        def pshufb(a):
            v, m = a
            out = []
            for i in range(len(v)):
                base = i & ~15
                c = m[i]
                if type(c) is not int:
                    r = 0
                    for k in range(16):
                        r = ite(8, eq(4, extract(c, 0, 4), k), v[base + k], r)
                    out.append(ite(8, extract(c, 7, 1), 0, r))
                else:
                    out.append(0 if c & 0x80 else v[base + (c & 15)])
            return tuple(out)
        return pshufb
    if n == "x86.sse2.pause":
        return lambda a: None
    m = re.match(r"x86\.(sse2|avx2)\.(psll|psrl)i?\.([dq])", n)
    if m and n[len("x86.xxxx.psll")] == "i":
        w = 32 if m.group(3) == "d" else 64
        f = T.shl if m.group(2) == "psll" else T.lshr
        return lambda a: tuple([f(w, x, a[1]) for x in a[0]])
    raise Unsupported("intrinsic " + n)


def _panic_name(name):
    return name[1:]


def demangle_hint(name):
    """readable tail of a v0-mangled name (diagnostics only)"""
    ids = re.findall(r"(?<![a-zA-Z])?(\d+)_?([A-Za-z_][A-Za-z0-9_]*)", name)
    out = []
    for n, s in ids:
        n = int(n)
        if n and n <= len(s):
            out.append(s[:n])
    return "::".join(out[-3:]) if out else name


EXTERN = {}


def extern(name):
    def d(f):
        EXTERN[name] = f
        return f
    return d


@extern("bcmp")
@extern("memcmp")
def _bcmp(X, a, name):
    r = X.bcmp(a[0], a[1], a[2])
    if r == 0:
        return 0
    x, y = r
    if name == "@memcmp":
        out = 0
        for p, q in reversed(list(zip(x, y))):
            out = ite(32, eq(8, p, q), out, ite(32, ult(8, p, q), MASK[32], 1))
        return out
    w = 8 * len(x)
    return ite(32, eq(w, concat([(v, 8) for v in x]), concat([(v, 8) for v in y])), 0, 1)


@extern("strlen")
def _strlen(X, a, name):
    return X.strlen(a[0])


def _alloc(X, n, al, zero):
    if type(n) is not int:
        n = X.ctx.concretize(n)
    o = X.new(n, al, "heap", [0] * n if zero else None)
    o.heap = True
    X.heap_live += 1
    return o.base


@extern("malloc")
def _malloc(X, a, name):
    return _alloc(X, a[0], 16, False)


@extern("calloc")
def _calloc(X, a, name):
    return _alloc(X, T.mul(64, a[0], a[1]), 16, True)


@extern("free")
def _free(X, a, name):
    p = a[0]
    if p == 0:
        return None
    o = X.objs.get(p >> 28)
    if o is None or not o.heap or o.base != p:
        raise UB("invalid free", X.where())
    X.free(o)
    X.heap_live -= 1


@extern("realloc")
def _realloc(X, a, name):
    n = a[1] if type(a[1]) is int else X.ctx.concretize(a[1])
    if a[0] == 0:
        return _alloc(X, n, 16, False)
    o = X.objs.get(a[0] >> 28)
    if o is None or not o.heap or o.base != a[0]:
        raise UB("invalid realloc", X.where())
    b = _alloc(X, n, 16, False)
    no = X.objs[b >> 28]
    k = min(n, o.size)
    no.data[:k] = o.data[:k]
    X.free(o)
    X.heap_live -= 1
    return b


@extern("posix_memalign")
def _pma(X, a, name):
    b = _alloc(X, a[2], a[1], False)
    X.store(a[0], L.PTR, b, 8)
    return 0


@extern("abort")
def _abort(X, a, name):
    raise Panic("abort")


@extern("getenv")
def _getenv(X, a, name):
    return 0


PANIC_RE = re.compile(r"4core9panicking|panic_|3std9panicking|rust_panic|panicking|expect_failed|unwrap_failed|"
                      r"slice_index_fail|_fail|alloc_error|capacity_overflow|len_mismatch")


def target(X, name):
    """callable(list of args) for a direct call to @name"""
    name = X.m.aliases.get(name, name)
    t = X.ext.get(name)
    if t is not None:
        return lambda a: X.ext[name](X, a)
    if X.hooks and name in X.hooks:
        h = X.hooks[name]
        return lambda a: h(X, a)
    f = X.m.fns.get(name)
    if f is not None:
        attr = X.m.fn_attr(f.hdr).split()
        if "noreturn" in attr and (not X.follow or PANIC_RE.search(name)):
            def pan(a):
                raise Panic(name[1:])
            return pan
        cache = X.compiled

        def go(a):
            c = cache.get(name)
            if c is None:
                c = X.compile(name)
            return X.run(c, a)
        return go
    short = name[1:]
    if short.startswith("llvm."):
        raise Unsupported("indirect intrinsic")
    e = EXTERN.get(short)
    if e is not None:
        return lambda a: X.ext[name](X, a) if name in X.ext else e(X, a, name)
    if X.m.is_noreturn_decl(name) and not X.follow:
        def pan2(a):
            raise Panic(short)
        return pan2

    def unk(a):
        t = X.ext.get(name)
        if t is not None:
            return t(X, a)
        raise Unsupported("call to external function " + short)
    return unk


def compile_fn(X, name):
    fn = X.m.fn(name)
    if fn is None:
        raise Unsupported("no body for " + name)
    slots = {}
    tmpl = []

    def slot(nm):
        s = slots.get(nm)
        if s is None:
            s = slots[nm] = len(tmpl)
            tmpl.append(None)
        return s

    for t, nm in fn.params:
        slot(nm)
    consts = {}

    def opnd(t, v):
        if v[0] == "l":
            return slot(L.unq(v[1]))
        c = X.const(t, v[1])
        k = (t, c) if type(c) is int else None
        if k is not None and k in consts:
            return consts[k]
        s = len(tmpl)
        tmpl.append(c)
        if k is not None:
            consts[k] = s
        return s

    index = {b: i for i, b in enumerate(fn.order)}

    def edge(frm, to):
        ds, ss = [], []
        for ph in fn.blocks[to].phis:
            _, d, t, inc = ph
            for v, lb in inc:
                if lb == frm:
                    ds.append(slot(d))
                    ss.append(opnd(t, v))
                    break
            else:
                raise Unsupported("phi without edge: %s %r %r" % (name, frm, ph))
        return (tuple(ds), tuple(ss), index[to])

    blocks = []
    for bn in fn.order:
        blk = fn.blocks[bn]
        code = []
        cur = bn
        term = None
        for ins in blk.ins:
            op = ins[0]
            if op in ("br", "cbr", "switch", "ret", "unreachable", "resume"):
                term = mk_term(X, ins, opnd, edge, cur, name)
                break
            if op == "call" and ins[5] is not None:
                g = mk_ins(X, ins, slot, opnd, name)
                if g is not None:
                    code.append(g)
                e = edge(cur, ins[5])
                term = lambda R, e=e: e
                break
            g = mk_ins(X, ins, slot, opnd, name)
            if g is not None:
                code.append(g)
        if term is None:
            raise Unsupported("block without terminator in " + name)
        blocks.append((tuple(code), term, len(code) + 1))
    tmpl.append(None)       # return value slot
    c = CFn()
    c.name = name
    c.tmpl = tmpl
    c.blocks = blocks
    c.entry = blocks[0]
    c.features = fn.features & TRACKED
    c.nparams = len(fn.params)
    return c


TRACKED = frozenset(["sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f", "avx512vl", "avx512bw", "bmi1",
                     "bmi2", "fma", "popcnt", "lzcnt", "movbe"])


def mk_term(X, ins, opnd, edge, cur, fname):
    op = ins[0]
    if op == "br":
        e = edge(cur, ins[1])
        return lambda R: e
    if op == "cbr":
        c = opnd(L.I1, ins[1])
        a = edge(cur, ins[2])
        b = edge(cur, ins[3])

        def cbr(R):
            v = R[c]
            if type(v) is int:
                return a if v else b
            return a if X.ctx.branch(v, X) else b
        return cbr
    if op == "switch":
        _, t, v, d, cs = ins
        s = opnd(t, v)
        de = edge(cur, d)
        w = L.bits_of(t)
        tab = {}
        by = {}
        for cv, lb in cs:
            e = edge(cur, lb)
            tab[cv] = e
            by.setdefault(lb, (e, []))[1].append(cv)
        lst = []
        for lb, (e, vs) in by.items():
            # the values that lead to one block, as ranges: one decision
            vs = sorted(set(vs))
            rs = []
            for x in vs:
                if rs and rs[-1][1] == x - 1:
                    rs[-1][1] = x
                else:
                    rs.append([x, x])
            lst.append((rs, e))

        def sw(R):
            x = R[s]
            if type(x) is int:
                return tab.get(x, de)
            for rs, e in lst:
                c = 0
                for lo, hi in rs:
                    c = T.bor(1, c, eq(w, x, lo) if lo == hi else T.ule(w, sub(w, x, lo), hi - lo))
                if X.ctx.branch(c, X):
                    return e
            return de
        return sw
    if op == "ret":
        if ins[1] is None:
            return lambda R: None
        s = opnd(ins[1], ins[2])

        def ret(R):
            R[-1] = R[s]
            return None
        return ret

    def unr(R):
        raise UB("reached an instruction the compiler marked unreachable", fname + " <- " + X.where())
    return unr


def mk_ins(X, ins, slot, opnd, fname):
    op = ins[0]
    if op == "bin":
        _, dn, o, t, a, b = ins
        d = slot(dn)
        sa, sb = opnd(t, a), opnd(t, b)
        f = SCALAR[o]
        if t[0] == "v":
            w = L.bits_of(t[2])

            def vb(R):
                R[d] = tuple([f(w, x, y) for x, y in zip(R[sa], R[sb])])
            return vb
        w = L.bits_of(t)
        m = MASK[w]
        if o == "add":
            def g(R):
                x = R[sa]
                y = R[sb]
                R[d] = (x + y) & m if type(x) is int and type(y) is int else f(w, x, y)
            return g
        if o in ("udiv", "urem", "sdiv", "srem"):
            def g(R):
                y = R[sb]
                if type(y) is int:
                    if y == 0:
                        raise UB("division by zero", X.where())
                elif not X.ctx.must(T.bnot1(eq(w, y, 0))):
                    X.ctx.assume_for_witness(eq(w, y, 0))
                    raise UB("division by zero", X.where())
                R[d] = f(w, R[sa], y)
            return g

        def g(R):
            R[d] = f(w, R[sa], R[sb])
        return g
    if op == "icmp":
        _, dn, pred, t, a, b = ins
        d = slot(dn)
        sa, sb = opnd(t, a), opnd(t, b)
        f = cmp_fn(pred)
        if t[0] == "v":
            w = L.bits_of(t[2])

            def g(R):
                R[d] = tuple([f(w, x, y) for x, y in zip(R[sa], R[sb])])
            return g
        w = L.bits_of(t)

        def g(R):
            R[d] = f(w, R[sa], R[sb])
        return g
    if op == "load":
        _, dn, t, a, al = ins
        d = slot(dn)
        sa = opnd(L.PTR, a)
        if t[0] in ("i", "p"):
            w = L.bits_of(t)
            n = (w + 7) >> 3
            ls = X.load_scalar

            def g(R):
                R[d] = ls(R[sa], n, w, al)
            return g
        ld = X.load

        def g(R):
            R[d] = ld(R[sa], t, al)
        return g
    if op == "store":
        _, t, v, a, al = ins
        sv = opnd(t, v)
        sa = opnd(L.PTR, a)
        st = X.store

        def g(R):
            st(R[sa], t, R[sv], al)
        return g
    if op == "gep":
        return mk_gep(X, ins, slot, opnd)
    if op == "cast":
        _, dn, o, t, v, t2 = ins
        d = slot(dn)
        sv = opnd(t, v)
        if o in ("ptrtoint", "inttoptr", "ptrtoaddr"):
            if t[0] == "v":
                raise Unsupported("vector of pointers")
            w1, w2 = L.bits_of(t), L.bits_of(t2)

            def g(R):
                x = R[sv]
                R[d] = x if w1 == w2 else (T.extract_v(x, w1, 0, w2) if w2 < w1 else T.zext(w1, w2, x))
            return g
        if o == "freeze":
            def g(R):
                R[d] = R[sv]
            return g
        if o == "bitcast":
            def g(R):
                R[d] = bitcast(R[sv], t, t2)
            return g
        vec = t[0] == "v"
        w1 = L.bits_of(t[2] if vec else t)
        w2 = L.bits_of(t2[2] if vec else t2)
        if o == "trunc":
            f = lambda x: T.extract_v(x, w1, 0, w2)
        elif o == "zext":
            f = lambda x: T.zext(w1, w2, x)
        else:
            f = lambda x: T.sext(w1, w2, x)
        if vec:
            def g(R):
                R[d] = tuple([f(x) for x in R[sv]])
        else:
            def g(R):
                R[d] = f(R[sv])
        return g
    if op == "select":
        _, dn, ct, c, t, a, b = ins
        d = slot(dn)
        sc, sa, sb = opnd(ct, c), opnd(t, a), opnd(t, b)
        if ct[0] == "v":
            w = L.bits_of(t[2])

            def g(R):
                R[d] = tuple([ite(w, cc, x, y) for cc, x, y in zip(R[sc], R[sa], R[sb])])
            return g
        if t[0] == "v":
            w = L.bits_of(t[2])

            def g(R):
                cc = R[sc]
                if type(cc) is int:
                    R[d] = R[sa] if cc else R[sb]
                else:
                    R[d] = tuple([ite(w, cc, x, y) for x, y in zip(R[sa], R[sb])])
            return g
        if t[0] in ("a", "s"):
            def g(R):
                cc = R[sc]
                if type(cc) is not int:
                    cc = X.ctx.branch(cc, X)
                R[d] = R[sa] if cc else R[sb]
            return g
        w = L.bits_of(t)

        def g(R):
            cc = R[sc]
            if type(cc) is not int:
                k = X.ctx.decide(cc)
                if k is not None:
                    cc = k
            R[d] = ite(w, cc, R[sa], R[sb])
        return g
    if op == "alloca":
        _, dn, t, cnt, al = ins
        d = slot(dn)
        es = L.size_of(t)
        sc = opnd(L.I64, cnt)

        def g(R):
            n = R[sc]
            if type(n) is not int:
                n = X.ctx.concretize(n)
            o = X.new(es * n, al, "stack:" + fname)
            X.stack.append(o.slot)
            R[d] = o.base
        return g
    if op == "extractvalue":
        _, dn, t, v, idx = ins
        d = slot(dn)
        sv = opnd(t, v)

        def g(R):
            x = R[sv]
            for i in idx:
                x = x[i]
            R[d] = x
        return g
    if op == "insertvalue":
        _, dn, t, v, et, e, idx = ins
        d = slot(dn)
        sv, se = opnd(t, v), opnd(et, e)

        def ins_(x, idx, e):
            l = list(x)
            l[idx[0]] = e if len(idx) == 1 else ins_(x[idx[0]], idx[1:], e)
            return tuple(l)

        def g(R):
            R[d] = ins_(R[sv], idx, R[se])
        return g
    if op == "extractelement":
        _, dn, t, v, it, i = ins
        d = slot(dn)
        sv, si = opnd(t, v), opnd(it, i)
        iw = L.bits_of(it)
        w = L.bits_of(t[2])

        def g(R):
            x = R[sv]
            k = R[si]
            if type(k) is int:
                if k >= len(x):
                    raise UB("vector index out of range", X.where())
                R[d] = x[k]
            else:
                r = x[-1]
                for q in range(len(x) - 2, -1, -1):
                    r = ite(w, eq(iw, k, q), x[q], r)
                R[d] = r
        return g
    if op == "insertelement":
        _, dn, t, v, e, it, i = ins
        d = slot(dn)
        sv, se, si = opnd(t, v), opnd(t[2], e), opnd(it, i)
        iw = L.bits_of(it)
        w = L.bits_of(t[2])

        def g(R):
            x = list(R[sv])
            k = R[si]
            if type(k) is int:
                if k >= len(x):
                    raise UB("vector index out of range", X.where())
                x[k] = R[se]
            else:
                for q in range(len(x)):
                    x[q] = ite(w, eq(iw, k, q), R[se], x[q])
            R[d] = tuple(x)
        return g
    if op == "shuffle":
        _, dn, t, a, b, m = ins
        d = slot(dn)
        sa, sb = opnd(t, a), opnd(t, b)
        n = t[1]
        w = L.bits_of(t[2])
        if all(k is not None and k < n for k in m):
            def g(R):
                x = R[sa]
                R[d] = tuple([x[k] for k in m])
            return g
        und = T.var("undef%d" % w, w)

        def g(R):
            x = R[sa] + R[sb]
            R[d] = tuple([und if k is None else x[k] for k in m])
        return g
    if op == "call":
        return mk_call(X, ins, slot, opnd, fname)
    if op == "asm":
        return mk_asm(X, ins, slot, opnd, fname)
    if op == "rmw":
        _, dn, kind, t, a, v = ins
        d = slot(dn)
        sa, sv = opnd(L.PTR, a), opnd(t, v)
        w = L.bits_of(t)
        fs = {"add": T.add, "sub": T.sub, "and": T.band, "or": T.bor, "xor": T.bxor, "xchg": lambda w, x, y: y,
              "umax": umax, "umin": umin}
        f = fs.get(kind)

        def g(R):
            if f is None:
                raise Unsupported("atomicrmw " + kind)
            o = X.load(R[sa], t, w // 8)
            X.store(R[sa], t, f(w, o, R[sv]), w // 8)
            R[d] = o
        return g
    if op == "cmpxchg":
        _, dn, t, a, c, n = ins
        d = slot(dn)
        sa, sc, sn = opnd(L.PTR, a), opnd(t, c), opnd(t, n)
        w = L.bits_of(t)

        def g(R):
            o = X.load(R[sa], t, w // 8)
            e = eq(w, o, R[sc])
            X.store(R[sa], t, ite(w, e, R[sn], o), w // 8)
            R[d] = (o, e)
        return g
    if op == "landingpad":
        return None

    def unk(R):
        raise Unsupported("instruction %r in %s" % (ins[:3], fname))
    return unk


def mk_gep(X, ins, slot, opnd):
    _, dn, bt, pt, a, idx = ins
    d = slot(dn)
    if pt[0] == "v" or any(it[0] == "v" for it, _ in idx):
        raise Unsupported("vector gep")
    sa = opnd(pt, a)
    off = 0
    dyn = []
    t = bt
    for n, (it, v) in enumerate(idx):
        w = L.bits_of(it)
        if n == 0:
            es = L.size_of(t)
        elif t[0] == "s":
            k = v[1]
            off += L.field_offsets(t)[k]
            t = t[1][k]
            continue
        else:
            t = t[2]
            es = L.size_of(t)
        if v[0] == "c" and type(v[1]) is int:
            k = v[1]
            if k >> (w - 1):
                k -= 1 << w
            off += k * es
        else:
            dyn.append((opnd(it, v), w, es))
    off &= MASK[64]
    m = MASK[64]
    if not dyn:
        def g(R):
            x = R[sa]
            R[d] = (x + off) & m if type(x) is int else add(64, x, off)
        return g
    if len(dyn) == 1 and dyn[0][1] == 64:
        si, w, es = dyn[0]

        def g(R):
            x = R[sa]
            i = R[si]
            if type(x) is int and type(i) is int:
                R[d] = (x + off + i * es) & m
            else:
                i = T.mul(64, i, es) if es != 1 else i
                R[d] = add(64, add(64, x, i), off)
        return g

    def g(R):
        x = R[sa]
        for si, w, es in dyn:
            i = R[si]
            if w < 64:
                i = T.sext(w, 64, i)
            x = add(64, x, T.mul(64, i, es))
        R[d] = add(64, x, off)
    return g


def mk_call(X, ins, slot, opnd, fname):
    _, dn, rt, callee, args, norm, nr = ins
    ss = [opnd(t, v) for t, v in args]
    d = slot(dn) if dn is not None else None
    if callee[0] == "c" and type(callee[1]) is tuple and callee[1][0] == "g":
        name = L.unq(callee[1][1])
        if name.startswith("@llvm."):
            if "assume" in name or "noalias.scope" in name:
                return None
            try:
                f = intrinsic(X, name, [t for t, _ in args], rt)
            except Unsupported as e:
                msg = str(e)

                def g(R):
                    raise Unsupported(msg)
                return g
        else:
            if nr and (not X.follow or PANIC_RE.search(name)):
                def g(R):
                    raise Panic(name[1:])
                return g
            f = target(X, name)
        if d is None:
            def g(R):
                f([R[s] for s in ss])
        else:
            def g(R):
                R[d] = f([R[s] for s in ss])
        return g
    sc = opnd(L.PTR, callee)

    def g(R):
        r = X.callv(R[sc], [R[s] for s in ss])
        if d is not None:
            R[d] = r
    return g


def mk_asm(X, ins, slot, opnd, fname):
    _, dn, rt, (txt, cons), args = ins
    ss = [opnd(t, v) for t, v in args]
    d = slot(dn) if dn is not None else None
    body = re.sub(r"/\*.*?\*/", "", txt).strip()
    if body == "" and len(ss) == 1 and cons.startswith("=") and d is not None and cons.split(",")[1] == "0":
        # optimisation barrier: output register is the input register
        def g(R):
            R[d] = R[ss[0]]
        return g
    if body == "" and d is None:
        return None
    if "cpuid" in body and len(ss) == 2 and rt[0] == "s" and len(rt[1]) == 4:
        def g(R):
            eax, ebx, ecx, edx = X.cpu.cpuid(R[ss[0]], R[ss[1]])
            R[d] = (ebx, eax, ecx, edx)
        return g

    def g(R):
        raise Unsupported("inline assembly %r in %s" % (txt, fname))
    return g
