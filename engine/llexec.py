"""Symbolic executor for LLVM IR.

Every function body is compiled once per process to Python closures over a slot
array.  Scalar values are ints or terms (terms.N), vectors and aggregates are
tuples.  Control flow on symbolic conditions goes through `X.ctx.branch`, which
forks (path.py).  Memory is byte-granular and every access is checked: object
liveness, bounds, alignment, writability.
"""
import terms as T
from terms import N, add, sub, eq, ult, ule, ite, concat, extract, sel
import llparse as L

MASK = T.MASK
SH = 28
LOWM = (1 << SH) - 1


class Stop(Exception):
    """end of the current path"""


class Panic(Stop):
    def __init__(self, where):
        self.where = where


class UB(Stop):
    """undefined behaviour / memory error reached; `term` (optional) = condition that makes it happen"""

    def __init__(self, what, where=""):
        self.what = what
        self.where = where


class Unsupported(Exception):
    """construct the executor cannot encode: the check is inconclusive"""


class Limit(Stop):
    pass


class Obj:
    __slots__ = ("base", "size", "data", "ro", "name", "slot", "arr", "shift", "heap")

    def __init__(self, base, size, data, name, ro=False):
        self.base = base
        self.size = size
        self.data = data
        self.name = name
        self.ro = ro
        self.arr = None
        self.shift = 0
        self.heap = False


class Exec:
    def __init__(self, module, hooks=None):
        self.m = module
        self.hooks = hooks     # function name -> replacement, see huge.py
        self.hookstate = None
        self.gaddr = {}
        self.gslot = {}
        self.nglob = 0
        self.compiled = {}
        self.steps_total = 0
        self.cmp_trace = None
        self.fns_entered = {}
        self.ctx = None
        self.cpu = None
        self.max_steps = 60_000_000
        self.follow = module.program   # run functions that do not return (exit) instead of ending the path
        self.reset(None)

    # ------------------------------------------------------------ path state
    def reset(self, ctx):
        self.ctx = ctx
        self.objs = {}
        self.nslot = 1 << 16
        self.steps = 0
        self.stack = []
        self.uninit = 0
        self.depth = 0
        self.cstack = []
        self.heap_live = 0
        self.log = []
        self.lazy_full = {}
        self.ext = {}

    # ------------------------------------------------------------ objects
    def new(self, size, align, name, data=None, ro=False):
        s = self.nslot
        self.nslot = s + 1
        base = (s << SH) + max(align, 1)
        o = Obj(base, size, [None] * size if data is None else data, name, ro)
        o.slot = s
        self.objs[s] = o
        return o

    def new_arr(self, size, arr, shift, name, mis=1):
        """read-only object whose byte k is  arr[shift+k];  size: int or term"""
        s = self.nslot
        self.nslot = s + 1
        o = Obj((s << SH) + mis, size, None, name, True)
        o.slot = s
        o.arr = arr
        o.shift = shift
        self.objs[s] = o
        return o

    def new_huge(self, size, hi, arr, shift, name):
        """read-only object of up to hi bytes, which takes several address slots; no address near a slot's end is used"""
        o = self.new_arr(size, arr, shift, name, (1 << 20) + 1)
        for s in range(o.slot + 1, o.slot + (hi >> SH) + 2):
            self.objs[s] = o
        self.nslot = o.slot + (hi >> SH) + 2
        return o

    def free(self, o):
        self.objs.pop(o.slot, None)

    def global_addr(self, name):
        name = self.m.aliases.get(name, name)
        a = self.gaddr.get(name)
        if a is None:
            self.nglob += 1
            s = self.nglob
            al = 16
            if name in self.m.globals:
                al = self.m.global_(name)[3]
            a = self.gaddr[name] = (s << SH) + max(al, 1)
            self.gslot[s] = name
        return a

    def _mk_global(self, s):
        name = self.gslot.get(s)
        if name is None:
            return None
        if name in self.m.globals:
            t, init, ro, al, tls = self.m.global_(name)
            size = L.size_of(t)
            if init is None:
                raise Unsupported("external global " + name)
            data = [0] * size
            self._init(data, 0, t, init)
            o = Obj((s << SH) + max(al, 1), size, data, name, ro)
        else:
            o = Obj(self.gaddr[name], 0, [], name, True)      # function
        o.slot = s
        self.objs[s] = o
        return o

    def _init(self, data, off, t, c):
        k = t[0]
        if c == ("zero",):
            return
        if type(c) is tuple and c[0] == "undef":
            for i in range(L.size_of(t)):
                data[off + i] = 0
            return
        if k in ("i", "p"):
            v = self.const(t, c)
            n = L.store_size(t)
            data[off:off + n] = list(v.to_bytes(n, "little"))
            return
        if k == "f":
            return
        if c[0] == "bytes":
            data[off:off + len(c[1])] = list(c[1])
            return
        if k in ("a", "v"):
            es = L.size_of(t[2])
            for i, x in enumerate(c[1]):
                self._init(data, off + i * es, t[2], x)
            return
        if k == "s":
            for x, o, ft in zip(c[1], L.field_offsets(t), t[1]):
                self._init(data, off + o, ft, x)
            return
        raise Unsupported("initialiser %r" % (t,))

    def const(self, t, c):
        if type(c) is int:
            return c
        k = c[0]
        if k == "g":
            return (self.global_addr(L.unq(c[1])) + c[2]) & MASK[64]
        if k == "undef":
            if t[0] == "v":
                return tuple(self.const(t[2], c) for _ in range(t[1]))
            if t[0] == "a":
                return tuple(self.const(t[2], c) for _ in range(t[1]))
            if t[0] == "s":
                return tuple(self.const(x, c) for x in t[1])
            if t[0] == "f":
                return 0
            return T.var("undef%d" % L.bits_of(t), L.bits_of(t))
        if k == "zero":
            if t[0] in ("v", "a"):
                return tuple(self.const(t[2], c) for _ in range(t[1]))
            if t[0] == "s":
                return tuple(self.const(x, c) for x in t[1])
            return 0
        if k == "agg":
            if t[0] in ("v", "a"):
                return tuple(self.const(t[2], x) for x in c[1])
            return tuple(self.const(ft, x) for ft, x in zip(t[1], c[1]))
        if k == "bytes":
            return tuple(c[1])
        if k == "bin":
            a = self.const(("i", c[2]), c[3])
            b = self.const(("i", c[2]), c[4])
            return {"sub": a - b, "add": a + b, "xor": a ^ b}[c[1]] & MASK[c[2]]
        if k == "flt":
            return 0
        raise Unsupported("constant %r" % (c,))

    # ------------------------------------------------------------ address resolution
    def where(self):
        return " <- ".join(reversed(self.cstack[-4:]))

    def resolve(self, addr, n, align, write=False):
        """-> (obj, off); off int or term.  n: number of bytes (int)"""
        if type(addr) is int:
            s = addr >> SH
            o = self.objs.get(s)
            if o is None:
                o = self._mk_global(s) if s <= self.nglob else None
                if o is None:
                    raise UB("access through invalid pointer %#x (%d bytes)" % (addr, n), self.where())
            off = addr - o.base
            if type(o.size) is int:
                if off < 0 or off + n > o.size:
                    raise UB("out-of-bounds %s: offset %d, %d bytes, object %s of %d bytes" % (
                        "write" if write else "read", off, n, o.name, o.size), self.where())
            else:
                if off < 0:
                    raise UB("out-of-bounds access before object %s" % o.name, self.where())
                c = ule(64, (off + n) & MASK[64], o.size)
                if type(c) is not int or not c:
                    if not self.ctx.must(c):
                        self.ctx.assume_for_witness(T.bnot1(c))
                        raise UB("out-of-bounds %s: offset %d, %d bytes, object %s" % (
                            "write" if write else "read", off, n, o.name), self.where())
            if align > 1 and addr % align:
                raise UB("misaligned access (needs %d) to %s+%d" % (align, o.name, off), self.where())
            if write and o.ro:
                raise UB("write to read-only object %s" % o.name, self.where())
            return o, off
        return self._resolve_sym(addr, n, align, write)

    def _resolve_sym(self, addr, n, align, write):
        ctx = self.ctx
        if ctx.secret_hook:
            ctx.secret_hook(addr, "address", self)
        addr = ctx.norm(addr)
        if type(addr) is int:
            return self.resolve(addr, n, align, write)
        if addr.op == "ite":
            c, x, y = addr.a
            return self.resolve(x if ctx.branch(c) else y, n, align, write)
        for _ in range(64):
            o = None
            v = addr.a[-1] if addr.op == "add" and type(addr.a[-1]) is int else 0
            s = v >> SH
            o = self.objs.get(s)
            if _ or (o is None and s not in self.gslot):
                v = ctx.model_value(addr)
                s = v >> SH
                o = self.objs.get(s)
            if o is None and s <= self.nglob:
                o = self._mk_global(s)
            if o is None:
                # the model itself is an invalid pointer
                raise UB("access through invalid pointer (symbolic, e.g. %#x)" % v, self.where())
            off = sub(64, addr, o.base)
            if type(off) is int:
                return self.resolve(o.base + off, n, align, write)
            if type(o.size) is int:
                c = ule(64, off, (o.size - n) & MASK[64]) if o.size >= n else 0
            else:
                # off <= size-n and n <= size
                c = T.band(1, ule(64, n, o.size), ule(64, off, sub(64, o.size, n)))
            ok = ctx.must(c)
            if ok:
                break
            # either out of bounds, or possibly another object
            w = ctx.find(T.bnot1(c))
            v2 = w.value(addr)
            s2 = v2 >> SH
            o2 = self.objs.get(s2)
            inb = False
            if o2 is not None and o2 is not o:
                sz = o2.size if type(o2.size) is int else w.value(o2.size)
                inb = 0 <= v2 - o2.base and v2 - o2.base + n <= sz
            if not inb:
                ctx.assume_for_witness(T.bnot1(c), w)
                raise UB("out-of-bounds %s: offset %s (e.g. %d), %d bytes, object %s" % (
                    "write" if write else "read", T.show(off, 3), (v2 - o.base), n, o.name), self.where())
            if ctx.branch(c):
                break
        else:
            raise Limit("address resolution")
        if align > 1:
            low = extract(addr, 0, align.bit_length() - 1)
            if type(low) is not int or low:
                c = eq(align.bit_length() - 1, low, 0)
                if not ctx.must(c):
                    ctx.assume_for_witness(T.bnot1(c))
                    raise UB("misaligned access (needs %d) to %s" % (align, o.name), self.where())
        if write and o.ro:
            raise UB("write to read-only object %s" % o.name, self.where())
        return o, off

    # ------------------------------------------------------------ byte access
    def fresh(self, w):
        self.uninit += 1
        return T.var("uninit%d_%d" % (self.uninit, w), w)

    def get_byte(self, o, off):
        """one byte as int / 8-bit term"""
        if o.arr is not None:
            return sel(o.arr, add(64, o.shift, off)) if type(o.arr) is str else o.arr[off]
        e = o.data[off]
        if type(e) is int:
            return e
        if e is None:
            v = self.fresh(8)
            o.data[off] = (v, 0)
            return v
        nd, k = e
        return nd if nd.w == 8 else extract(nd, 8 * k, 8)

    def set_byte(self, o, off, v):
        o.data[off] = v if type(v) is int else (v, 0)

    def rd(self, o, off, n):
        """n bytes as one little-endian value of 8n bits; off int"""
        if o.arr is not None:
            a, s = o.arr, o.shift
            if n == 1:
                return sel(a, add(64, s, off))
            return concat([(sel(a, add(64, s, (off + k))), 8) for k in range(n)])
        d = o.data[off:off + n]
        e0 = d[0]
        if n == 1:
            if type(e0) is int:
                return e0
            return self.get_byte(o, off)
        if type(e0) is tuple:
            nd = e0[0]
            if e0[1] == 0 and nd.w == 8 * n:
                for k in range(1, n):
                    e = d[k]
                    if type(e) is not tuple or e[0] is not nd or e[1] != k:
                        break
                else:
                    return nd
        else:
            try:
                return int.from_bytes(bytes(d), "little")
            except TypeError:
                pass
        # runs
        parts = []
        k = 0
        while k < n:
            e = d[k]
            if type(e) is int:
                parts.append((e, 8))
                k += 1
            elif e is None:
                # uninitialised run
                j = k
                while j < n and d[j] is None:
                    j += 1
                v = self.fresh(8 * (j - k))
                for q in range(k, j):
                    o.data[off + q] = (v, q - k)
                parts.append((v, 8 * (j - k)))
                k = j
            else:
                nd, b = e
                j = k + 1
                while j < n and type(d[j]) is tuple and d[j][0] is nd and d[j][1] == b + (j - k):
                    j += 1
                parts.append((extract(nd, 8 * b, 8 * (j - k)), 8 * (j - k)))
                k = j
        return concat(parts)

    def wr(self, o, off, n, v):
        if type(v) is int:
            o.data[off:off + n] = v.to_bytes(n, "little")
        else:
            o.data[off:off + n] = [(v, k) for k in range(n)]

    def rd_sym(self, o, off, n):
        """read at symbolic offset"""
        if o.arr is not None:
            b = add(64, o.shift, off)
            if n == 1:
                return sel(o.arr, b)
            return concat([(sel(o.arr, add(64, b, k)), 8) for k in range(n)])
        if off.d and o.size - n < 64:
            lo, hi = 0, o.size - n         # a small table looked up by data: not worth a query
        else:
            lo, hi = self.ctx.range(off, o.size - n)
        r = None
        for j in range(hi, lo - 1, -1):
            v = self.rd(o, j, n)
            r = v if r is None else ite(8 * n, eq(64, off, j), v, r)
        return r

    def wr_sym(self, o, off, n, v):
        lo, hi = self.ctx.range(off, o.size - n)
        bs = [T.extract_v(v, 8 * n, 8 * k, 8) for k in range(n)]
        cs = {}
        for j in range(lo, hi + 1):
            cs[j] = eq(64, off, j)
        for p in range(lo, hi + n):
            r = None
            for k in range(n):
                j = p - k
                if lo <= j <= hi:
                    if r is None:
                        r = self.get_byte(o, p)
                    r = ite(8, cs[j], bs[k], r)
            if r is not None:
                self.set_byte(o, p, r)

    def load_scalar(self, addr, n, w, align):
        o, off = self.resolve(addr, n, align)
        v = self.rd(o, off, n) if type(off) is int else self.rd_sym(o, off, n)
        if w != 8 * n:
            v = T.extract_v(v, 8 * n, 0, w)
        return v

    def load(self, addr, t, align):
        k = t[0]
        if k == "i":
            return self.load_scalar(addr, (t[1] + 7) >> 3, t[1], align)
        if k == "p":
            return self.load_scalar(addr, 8, 64, align)
        if k == "v":
            w = L.bits_of(t[2])
            if w % 8:
                raise Unsupported("load of sub-byte vector")
            n = w // 8
            o, off = self.resolve(addr, n * t[1], align)
            if type(off) is int:
                return tuple([self.rd(o, off + i * n, n) for i in range(t[1])])
            return tuple([self.rd_sym(o, add(64, off, i * n), n) for i in range(t[1])])
        if k == "a":
            es = L.size_of(t[2])
            return tuple([self.load(add(64, addr, i * es), t[2], 1) for i in range(t[1])])
        if k == "s":
            return tuple([self.load(add(64, addr, fo), ft, 1) for fo, ft in zip(L.field_offsets(t), t[1])])
        if k == "f":
            return self.load_scalar(addr, t[1] // 8, t[1], align)
        raise Unsupported("load %r" % (t,))

    def store(self, addr, t, v, align):
        k = t[0]
        if k in ("i", "p", "f"):
            w = L.bits_of(t)
            n = (w + 7) >> 3
            o, off = self.resolve(addr, n, align, True)
            if w != 8 * n:
                v = T.zext(w, 8 * n, v)
            if type(off) is int:
                self.wr(o, off, n, v)
            else:
                self.wr_sym(o, off, n, v)
            return
        if k == "v":
            w = L.bits_of(t[2])
            if w % 8:
                raise Unsupported("store of sub-byte vector")
            n = w // 8
            o, off = self.resolve(addr, n * t[1], align, True)
            for i in range(t[1]):
                if type(off) is int:
                    self.wr(o, off + i * n, n, v[i])
                else:
                    self.wr_sym(o, add(64, off, i * n), n, v[i])
            return
        if k == "a":
            es = L.size_of(t[2])
            for i in range(t[1]):
                self.store(add(64, addr, i * es), t[2], v[i], 1)
            return
        if k == "s":
            for x, fo, ft in zip(v, L.field_offsets(t), t[1]):
                self.store(add(64, addr, fo), ft, x, 1)
            return
        raise Unsupported("store %r" % (t,))

    # ------------------------------------------------------------ bulk memory
    def _len(self, n):
        if type(n) is int:
            return n
        n = self.ctx.norm(n)
        while type(n) is not int and n.op == "ite":
            n = n.a[1] if self.ctx.branch(n.a[0]) else n.a[2]
            if type(n) is not int:
                n = self.ctx.norm(n)
        return n

    def _ptr(self, p):
        if type(p) is int:
            return p
        p = self.ctx.norm(p)
        while type(p) is not int and p.op == "ite":
            p = p.a[1] if self.ctx.branch(p.a[0]) else p.a[2]
            if type(p) is not int:
                p = self.ctx.norm(p)
        return p

    def _range_ok(self, addr, n, write):
        """resolve [addr, addr+n) with symbolic n (>0 is known) -> (obj, off)"""
        ctx = self.ctx
        o, off = self.resolve(addr, 1, 1, write)
        # off + n <= size, no wrap
        size = o.size
        c = T.band(1, ule(64, n, size), ule(64, off, sub(64, size, n)))
        if not ctx.must(c):
            ctx.assume_for_witness(T.bnot1(c))
            raise UB("out-of-bounds %s of symbolic length in %s" % ("write" if write else "read", o.name), self.where())
        return o, off

    def memcpy(self, dst, src, n, move=False):
        n = self._len(n)
        if type(n) is int:
            if n == 0:
                return
            dst = self._ptr(dst)
            src = self._ptr(src)
            so, soff = self.resolve(src, n, 1)
            do, doff = self.resolve(dst, n, 1, True)
            if so is do and not move and type(soff) is int and type(doff) is int and soff != doff and abs(soff - doff) < n:
                raise UB("memcpy with overlapping ranges in %s" % so.name, self.where())
            if type(soff) is int and type(doff) is int:
                if so.arr is None:
                    do.data[doff:doff + n] = so.data[soff:soff + n]
                else:
                    a, s = so.arr, so.shift
                    bs = [sel(a, add(64, s, soff + k)) for k in range(n)]
                    do.data[doff:doff + n] = [x if type(x) is int else (x, 0) for x in bs]
                return
            if type(soff) is int or so.arr is not None:
                if type(soff) is int:
                    bs = [self.get_byte(so, soff + k) for k in range(n)]
                else:
                    b = add(64, so.shift, soff)
                    bs = [sel(so.arr, add(64, b, k)) for k in range(n)]
            else:
                bs = [self.rd_sym(so, add(64, soff, k), 1) for k in range(n)]
            if type(doff) is int:
                for k in range(n):
                    self.set_byte(do, doff + k, bs[k])
            else:
                self.wr_sym(do, doff, n, concat([(x, 8) for x in bs]))
            return
        # symbolic length
        ctx = self.ctx
        if ctx.secret_hook:
            ctx.secret_hook(n, "length", self)
        if not ctx.branch(T.bnot1(eq(64, n, 0))):
            return
        dst = self._ptr(dst)
        src = self._ptr(src)
        so, soff = self._range_ok(src, n, False)
        do, doff = self._range_ok(dst, n, True)
        if so is do and not move:
            raise Unsupported("memcpy of symbolic length within one object")
        nlo, nhi = ctx.range(n, do.size)
        if type(doff) is int:
            dlo = dhi = doff
        else:
            dlo, dhi = ctx.range(doff, do.size - 1)
        end = min(do.size, dhi + nhi)
        if so is do:
            snap = [self.get_byte(so, j) for j in range(so.size)]
        else:
            snap = None
        isconst = type(doff) is int
        stop = add(64, doff, n)
        if end > dlo + nlo:
            end = min(end, ctx.range(stop, end)[1])
        new = {}
        for j in range(dlo, end):
            # j in [doff, doff+n)?
            c1 = 1 if j >= dhi else ule(64, doff, j)
            c2 = 1 if j < dlo + nlo else ult(64, j, stop)
            c = T.band(1, c1, c2)
            if type(c) is int and not c:
                continue
            rel = (j - doff) if isconst else sub(64, j, doff)
            if so.arr is not None:
                v = sel(so.arr, add(64, add(64, so.shift, soff), rel))
            else:
                so_i = add(64, soff, rel & MASK[64] if type(rel) is int else rel)
                if type(so_i) is not int:
                    so_i = ctx.norm(so_i)
                if type(so_i) is int:
                    if so_i >= so.size:
                        continue
                    v = self.get_byte(so, so_i) if snap is None else snap[so_i]
                else:
                    v = self._mux_byte(so, so_i, snap, c)
            old = self.get_byte(do, j) if (type(c) is not int) else 0
            new[j] = ite(8, c, v, old)
        for j, v in new.items():
            self.set_byte(do, j, v)

    def _mux_byte(self, so, idx, snap, c):
        r = None
        for j in range(so.size - 1, -1, -1):
            v = self.get_byte(so, j) if snap is None else snap[j]
            r = v if r is None else ite(8, eq(64, idx, j), v, r)
        return r

    def memset(self, dst, v, n):
        n = self._len(n)
        if type(n) is int:
            if n == 0:
                return
            dst = self._ptr(dst)
            o, off = self.resolve(dst, n, 1, True)
            if type(off) is int:
                o.data[off:off + n] = [v if type(v) is int else (v, 0)] * n
            else:
                self.wr_sym(o, off, n, concat([(v, 8)] * n))
            return
        ctx = self.ctx
        if ctx.secret_hook:
            ctx.secret_hook(n, "length", self)
        if not ctx.branch(T.bnot1(eq(64, n, 0))):
            return
        dst = self._ptr(dst)
        o, off = self._range_ok(dst, n, True)
        nlo, nhi = ctx.range(n, o.size)
        lo, hi = (off, off) if type(off) is int else ctx.range(off, o.size - 1)
        stop = add(64, off, n)
        end = min(o.size, hi + nhi)
        if end > lo + nlo:
            end = min(end, ctx.range(stop, end)[1])
        for j in range(lo, end):
            c = T.band(1, 1 if j >= hi else ule(64, off, j), 1 if j < lo + nlo else ult(64, j, stop))
            if type(c) is int:
                if c:
                    self.set_byte(o, j, v)
                continue
            self.set_byte(o, j, ite(8, c, v, self.get_byte(o, j)))

    def bcmp(self, a, b, n):
        n = self._len(n)
        if type(n) is not int:
            n = self.ctx.concretize(n)
        if n == 0:
            return 0
        xo, xf = self.resolve(self._ptr(a), n, 1)
        yo, yf = self.resolve(self._ptr(b), n, 1)
        x = [self.rd(xo, xf + k, 1) if type(xf) is int else self.rd_sym(xo, add(64, xf, k), 1) for k in range(n)]
        y = [self.rd(yo, yf + k, 1) if type(yf) is int else self.rd_sym(yo, add(64, yf, k), 1) for k in range(n)]
        if self.ctx.secret_hook:
            # the library routine stops at the first difference
            for k in range(n):
                self.ctx.secret_hook(T.eq(8, x[k], y[k]), "memcmp", self)
        if self.cmp_trace is not None:
            self.cmp_trace.append(next((k for k in range(n) if x[k] != y[k]), n))
        return x, y

    def strlen(self, p):
        n = 0
        while True:
            b = self.load_scalar(add(64, p, n), 1, 8, 1)
            if b == 0 if type(b) is int else self.ctx.branch(eq(8, b, 0), self):
                return n
            n += 1

    # ------------------------------------------------------------ calls
    def call(self, name, args):
        f = self.compiled.get(name)
        if f is None:
            f = self.compile(name)
        return self.run(f, args)

    def run(self, f, args):
        if self.cpu is not None and not f.features <= self.cpu.allowed:
            raise UB("executes code compiled for %s on a CPU that lacks it" % ",".join(sorted(f.features - self.cpu.allowed)),
                     f.name + " <- " + self.where())
        self.fns_entered[f.name] = self.fns_entered.get(f.name, 0) + 1
        self.depth += 1
        if self.depth > 150:
            raise Limit("call depth")
        self.cstack.append(f.name)
        mark = len(self.stack)
        R = f.tmpl.copy()
        R[:len(args)] = args
        blk = f.entry
        try:
            while True:
                code, term, n = blk
                self.steps += n
                if self.steps > self.max_steps:
                    raise Limit("step limit")
                for g in code:
                    g(R)
                e = term(R)
                if e is None:
                    return R[-1]
                ds, ss, blk_i = e
                if ds:
                    if len(ds) == 1:
                        R[ds[0]] = R[ss[0]]
                    else:
                        vs = [R[s] for s in ss]
                        for d, v in zip(ds, vs):
                            R[d] = v
                blk = f.blocks[blk_i]
        finally:
            self.depth -= 1
            self.cstack.pop()
            st = self.stack
            while len(st) > mark:
                self.objs.pop(st.pop(), None)

    def callv(self, callee, args):
        if type(callee) is not int:
            callee = self._ptr(callee)
            if type(callee) is not int:
                callee = self.ctx.concretize(callee)
        name = self.gslot.get(callee >> SH)
        if name is None or self.gaddr[name] != callee:
            raise UB("indirect call through invalid pointer %#x" % callee, self.where())
        return self.dispatch(name)(args)

    # ------------------------------------------------------------ compilation
    def compile(self, name):
        import llcompile
        f = llcompile.compile_fn(self, name)
        self.compiled[name] = f
        return f

    def dispatch(self, name):
        import llcompile
        return llcompile.target(self, name)
