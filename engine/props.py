"""Scenario programs.  Each runs on the symbolic machine (all inputs symbolic within the
stated ranges) and, unchanged, on the native machine (values from a solver model)."""
import terms as T
import spec
from machine import Violation, SkipPath
from llexec import Panic

V = {"b": spec.B, "s": spec.S}


HASH_API = {"as_bytes", "as_ref", "as_array", "to_hex", "hash_debug", "eq", "ne", "eq_slice", "from_array",
            "from_array_ref", "hash_clone"}


class Lib:
    """the C-ABI doorway of one crate (pfx b_ / s_) or of its parallel mode (bp_ / sp_)"""

    def __init__(self, m, pfx):
        self.m = m
        self.pfx = pfx
        self.v = V[pfx[0]]
        self.par = pfx[1] == "p"
        n = 6 if self.par else 14
        k = m.buf(8 * n, 8)
        m.call(pfx + "consts", k)
        c = [m.rdint(k + 8 * i, 8) for i in range(n)]
        self.psz, self.pal, self.ssz, self.sal, self.hsz, self.hal = c[:6]
        if not self.par:
            self.jsz, self.jal = c[6:8]
            self.consts = c[8:14]

    def f(self, name, *a):
        # the Hash type of the parallel mode is that of the serial mode
        self.m.call((self.pfx[0] + "_" if name in HASH_API else self.pfx) + name, *a)

    def panics(self, name, *a):
        return self.m.panics(self.pfx + name, *a)

    # objects
    def P(self):
        return self.m.buf(self.psz, self.pal, "Params")

    def St(self):
        return self.m.buf(self.ssz, self.sal, "State")

    def H(self):
        return self.m.buf(self.hsz, self.hal, "Hash")

    def J(self):
        return self.m.buf(self.jsz, self.jal, "Job")

    def params(self):
        p = self.P()
        self.f("params_new", p)
        return p

    def state(self):
        s = self.St()
        self.f("state_new", s)
        return s

    def to_state(self, p):
        s = self.St()
        self.f("to_state", p, s)
        return s

    def clone_state(self, s):
        o = self.St()
        self.f("state_clone", s, o)
        return o

    def update(self, s, p, n):
        o = self.m.buf(1)
        self.f("update", s, p, n, o)
        self.m.check_eq(self.m.rdint(o, 1), 1, 8, "update returns the same state")

    def finalize(self, s):
        h = self.H()
        self.f("finalize", s, h)
        return h

    def hash(self, p, i, n):
        h = self.H()
        self.f("hash", p, i, n, h)
        return h

    def count(self, s):
        o = self.m.buf(16, 16)
        self.f("count", s, o)
        return self.m.rdint(o, 16)

    def hash_bytes(self, h):
        """(length, pointer) of a Hash through as_bytes (the Hash type is shared with the serial mode)"""
        o = self.m.buf(16, 8)
        self.m.call(self.pfx[0] + "_as_bytes", h, o)
        return self.m.rdint(o + 8, 8), self.m.rdint(o, 8)

    def check_hash(self, h, want, hl, label):
        """the Hash has exactly the hl bytes `want`"""
        m = self.m
        n, p = self.hash_bytes(h)
        m.check_eq(n, hl, 64, label + ": length")
        hl = m.norm(hl) if type(hl) is not int else hl
        if type(hl) is int:
            m.check_bytes(m.rd(p, hl), want[:hl], label)
        else:
            got = m.rd(p, self.v.out)
            g = [T.ite(8, T.ult(64, i, hl), got[i], 0) for i in range(self.v.out)]
            w = [T.ite(8, T.ult(64, i, hl), want[i], 0) for i in range(self.v.out)]
            m.check_bytes(g, w, label)

    def hash_eq(self, a, b, label):
        """two Hash values have the same length and bytes"""
        m = self.m
        n1, p1 = self.hash_bytes(a)
        n2, p2 = self.hash_bytes(b)
        m.check_eq(n1, n2, 64, label + ": length")
        if type(n1) is not int:
            g1, g2 = m.rd(p1, self.v.out), m.rd(p2, self.v.out)
            m.check_bytes([T.ite(8, T.ult(64, i, n1), x, 0) for i, x in enumerate(g1)],
                          [T.ite(8, T.ult(64, i, n1), x, 0) for i, x in enumerate(g2)], label)
        else:
            m.check_bytes(m.rd(p1, n1), m.rd(p2, n1), label)


class Cfg:
    """the parameters the caller asked for (reference side)"""

    def __init__(self, v):
        self.v = v
        self.p = v.defaults()
        self.hl = v.out
        self.key = None           # list of block bytes when keyed
        self.last = 0             # 1-bit

    def words(self):
        p = dict(self.p)
        return self.v.init(p)


def b64(x, w):
    """widen an 8/32-bit value to 64"""
    return T.zext(w, 64, x) if type(x) is not int else x


ALL = ("hash_length", "salt", "personal", "fanout", "max_depth", "max_leaf_length", "node_offset", "node_depth",
       "inner_hash_length", "last_node")


def set_params(L, P, cfg, which, tag="", keymax=None):
    """apply setters with arbitrary valid symbolic arguments; keep `cfg` in step"""
    m, v = L.m, L.v
    for k in which:
        if k == "hash_length":
            x = m.var(tag + "hash_length", 64, 1, v.out)
            L.f("hash_length", P, x)
            cfg.hl = x
            cfg.p["digest_length"] = T.extract_v(x, 64, 0, 8)
        elif k in ("salt", "personal"):
            n = m.var(tag + k + "_len", 64, 0, v.salt)
            d = m.view(tag + k, 0, n)
            L.f(k, P, d, n)
            cfg.p[k] = [T.ite(8, T.ult(64, i, n), m.byte(tag + k, i), 0) for i in range(v.salt)]
        elif k in ("fanout", "max_depth", "node_depth"):
            x = m.var(tag + "d_" + k, 8)
            L.f(k, P, x)
            cfg.p[k] = x
        elif k == "max_leaf_length":
            x = m.var("d_" + tag + k, 32)
            L.f(k, P, x)
            cfg.p["leaf_length"] = x
        elif k == "node_offset":
            # (BLAKE2s: any 48-bit value, by construction)
            x = m.var("d_" + tag + k, 64) if v.w == 64 else T.concat(
                [(m.var("d_" + tag + k + "_lo", 32), 32), (m.var("d_" + tag + k + "_hi", 16), 16), (0, 16)])
            L.f(k, P, x)
            cfg.p[k] = x
        elif k == "inner_hash_length":
            x = m.var(tag + k, 64, 0, v.out)
            L.f(k, P, x)
            cfg.p["inner_length"] = T.extract_v(x, 64, 0, 8)
        elif k == "last_node":
            x = m.var(tag + k, 8, 0, 1)
            L.f(k, P, x)
            cfg.last = T.bnot1(T.eq(8, x, 0))
        elif k == "key":
            set_key(L, P, cfg, tag, keymax)


def set_key(L, P, cfg, tag="", keymax=None, lo=0):
    m, v = L.m, L.v
    n = m.var(tag + "key_len", 64, lo, v.key if keymax is None else keymax)
    d = m.view(tag + "key", 0, n)
    L.f("key", P, d, n)
    cfg.p["key_length"] = T.extract_v(n, 64, 0, 8)
    if m.branch(T.eq(64, n, 0)):
        cfg.key = None
    else:
        cfg.key = [T.ite(8, T.ult(64, i, n), m.byte(tag + "key", i), 0) for i in range(v.block)]


def lastword(v, bit):
    return T.ite(v.w, bit, T.MASK[v.w], 0)


def ref_hash(m, v, cfg, arr, base, n, maxn=None):
    """reference digest (all OUT bytes) of the n bytes of `arr` from index base on"""
    return ref_tail(m, v, cfg.words(), 0, cfg.key, arr, base, n, cfg.last)


def ref_tail(m, v, h, t, key, arr, base, n, last, root=True):
    B = v.block
    k = B if key is not None else 0
    total = T.add(64, n, k)
    nb = 0
    while m.branch(T.ult(64, (nb + 1) * B, total)):
        nb += 1

    def get(i, j):
        o = i * B + j - k
        if o < 0:
            return key[i * B + j]
        x = m.byte(arr, T.add(64, base, o))
        if i < nb:
            return x
        if type(n) is int:
            return x if o < n else 0
        return T.ite(8, T.ult(64, o, n), x, 0)
    ll = T.sub(64, total, nb * B)
    h = v.blocks(h, t, get, nb, T.zext(64, v.cw, ll) if v.cw > 64 else ll, lastword(v, last))
    return v.bytes(h)


def ref_parallel(m, v, hl, keyn, key, arr, base, n, t0=0):
    """reference digest of the parallel mode; n bytes of arr from base on"""
    D, B = v.fanout, v.block
    dl = T.extract_v(hl, 64, 0, 8)
    kl = T.extract_v(keyn, 64, 0, 8)
    # number of blocks of input
    nblk = 0
    while m.branch(T.ult(64, nblk * B, n)):
        nblk += 1
    root = []
    for i in range(D):
        p = v.defaults(digest_length=dl, fanout=D, max_depth=2, node_offset=i, inner_length=v.out, key_length=kl)
        idx = list(range(i, nblk, D))              # blocks of this leaf
        full = [b * B for b in idx]

        def get(a, j, full=full):
            if key is not None:
                if a == 0:
                    return key[j]
                a -= 1
            if a >= len(full):
                return 0
            o = full[a] + j
            x = m.byte(arr, T.add(64, base, o))
            if full[a] // B < nblk - 1:
                return x
            if type(n) is int:
                return x if o < n else 0
            return T.ite(8, T.ult(64, o, n), x, 0)
        cnt = len(full) + (1 if key is not None else 0)
        if cnt == 0:
            ll = 0
        elif full and full[-1] // B == nblk - 1:
            ll = T.sub(64, n, full[-1])
        else:
            ll = B
        ll = T.zext(64, v.cw, ll) if v.cw > 64 and type(ll) is not int else ll
        h = v.blocks(v.init(p), t0, get, max(0, cnt - 1), ll, T.MASK[v.w] if i == D - 1 else 0)
        root += v.bytes(h)
    p = v.defaults(digest_length=dl, fanout=D, max_depth=2, node_depth=1, inner_length=v.out, key_length=kl)
    rb = len(root) // B - 1
    h = v.blocks(v.init(p), 0, lambda i, j: root[i * B + j], rb, B, T.MASK[v.w])
    return v.bytes(h)


def cat(*bs):
    return T.concat([(x, 8) for x in bs])


# =====================================================================================
# conformance of the serial modes
# =====================================================================================
def oneshot(m, pfx, lo, hi=0, pat=0):
    """free function on lo..hi bytes (or, with a string for lo, on as many as that says)"""
    L = Lib(m, pfx)
    msg = arrname("msg", pat)
    v = L.v
    n = _len(m, "n", lo if type(lo) is str else [lo, hi], pat)
    h = L.H()
    L.f("oneshot", m.view(msg, 0, n), n, h)
    if L.par:
        want = ref_parallel(m, v, v.out, 0, None, msg, 0, n)
    else:
        want = ref_hash(m, v, Cfg(v), msg, 0, n)
    L.check_hash(h, want, v.out, "one-shot hash of the whole input")


def params_hash(m, pfx, lo, hi, which, keyed=None, api="hash"):
    """Params with arbitrary settings, hashed all at once / through a State / through a one-element hash_many"""
    L = Lib(m, pfx)
    v = L.v
    P = L.params()
    cfg = Cfg(v)
    set_params(L, P, cfg, which)
    n = m.var("n", 64, lo, hi)
    i = m.view("msg", 0, n)
    if api == "hash":
        h = L.hash(P, i, n)
    elif api == "state":
        s = L.to_state(P)
        L.update(s, i, n)
        h = L.finalize(s)
    elif api == "job":
        j = L.J()
        L.f("job_new", P, i, n, j)
        L.f("hash_many", m.ptrs([j]), 1)
        h = L.H()
        L.f("job_to_hash", j, h)
    want = ref_hash(m, v, cfg, "msg", 0, n)
    L.check_hash(h, want, cfg.hl, "hash with parameters (%s)" % api)


def incremental(m, pfx, lens, which=(), setlast=False, writer=None, pat=0):
    """State fed in several pieces of symbolic lengths; finalized after every piece; count checked"""
    L = Lib(m, pfx)
    msg = arrname("msg", pat)
    v = L.v
    if which:
        P = L.params()
        cfg = Cfg(v)
        set_params(L, P, cfg, which)
        s = L.to_state(P)
    else:
        cfg = Cfg(v)
        s = L.state()
    tot = 0
    o = m.buf(8, 8)
    for k, (lo, hi) in enumerate(lens):
        n = _len(m, "n%d" % k, [lo, hi], pat)
        d = m.view(msg, tot, n)
        w = writer[k] if writer else "update"
        if w == "update":
            L.update(s, d, n)
        elif w == "write":
            L.f("write", s, d, n, o)
            m.check_eq(m.rdint(o, 8), n, 64, "write() accepts every byte")
        else:
            L.f("write_all", s, d, n, o)
            m.check_eq(m.rdint(o, 8), 0, 64, "write_all() succeeds")
            L.f("flush", s, o)
            m.check_eq(m.rdint(o, 8), 0, 64, "flush() succeeds")
        tot = T.add(64, tot, n)
        if setlast and k == setlast - 1:
            b = m.var("late_last_node", 8, 0, 1)
            L.f("set_last_node", s, b)
            cfg.last = T.bnot1(T.eq(8, b, 0))
    m.check_eq(L.count(s), T.zext(64, 128, tot), 128, "count()")
    h = L.finalize(s)
    want = ref_hash(m, v, cfg, msg, 0, tot)
    L.check_hash(h, want, cfg.hl, "incremental hash")


# =====================================================================================
# parallel modes
# =====================================================================================
def par_hash(m, pfx, lo, hi, keyed=False, hl=True, api="hash", lens=None):
    """BLAKE2bp / BLAKE2sp with hash_length / key: all at once or through a State"""
    L = Lib(m, pfx)
    v = L.v
    P = L.params()
    hlen = v.out
    keyn, key = 0, None
    if hl:
        hlen = m.var("hash_length", 64, 1, v.out)
        L.f("hash_length", P, hlen)
    if keyed:
        cfg = Cfg(v)
        set_key(L, P, cfg, lo=1 if keyed == "nonempty" else 0)
        key, keyn = cfg.key, T.zext(8, 64, cfg.p["key_length"])
    if api == "hash":
        n = m.var("n", 64, lo, hi)
        h = L.hash(P, m.view("msg", 0, n), n)
    else:
        s = L.to_state(P)
        n = 0
        for k, (a, b) in enumerate(lens):
            x = m.var("n%d" % k, 64, a, b)
            L.update(s, m.view("msg", n, x), x)
            n = T.add(64, n, x)
        h = L.finalize(s)
    want = ref_parallel(m, v, hlen, keyn, key, "msg", 0, n)
    L.check_hash(h, want, hlen, "parallel hash (%s)" % api)


# =====================================================================================
# incremental use against all-at-once use of the same library
# =====================================================================================
def _setup(L, which, keymax=None):
    """Params with the settings in `which`; (params, cfg)"""
    P = L.params()
    cfg = Cfg(L.v)
    for k in which:
        if L.par and k not in ("hash_length", "key"):
            continue
        set_params(L, P, cfg, (k,), keymax=keymax)
    return P, cfg


def arrname(base, pat):
    """name of an input array; with pat its first pat bytes are fixed"""
    return "%s@%d" % (base, pat) if pat else base


def _len(m, name, spec, pat=0):
    if type(spec) is int:
        return spec
    if pat:                           # the fixed part needs fixed positions: one path per length
        return m.concretize(m.var(name, 64, spec[0], spec[1]))
    if type(spec) is str and spec[:2] == "G:":   # the same with one number of blocks for all
        b, lo, hi, e = [int(x) for x in spec[2:].split(":")]
        n = m.concretize(m.var("blocks", 64, lo, hi)) * b
        return T.add(64, n, m.var(name + "_more", 64, 0, e)) if e else n
    if type(spec) is str and spec[:2] == "g:":   # "g:B:lo:hi:e": lo..hi blocks of B bytes (one path each) and 0..e bytes more
        b, lo, hi, e = [int(x) for x in spec[2:].split(":")]
        n = m.concretize(m.var(name + "_blocks", 64, lo, hi)) * b
        return T.add(64, n, m.var(name + "_more", 64, 0, e)) if e else n
    if type(spec) is str:             # "x:lo:hi": one length shared by everything naming x
        x, lo, hi = spec.split(":")
        return m.var("len_" + x, 64, int(lo), int(hi))
    return m.var(name, 64, spec[0], spec[1])


def feed(m, L, s, how, d, n, o):
    if how == "write":
        L.f("write", s, d, n, o)
        m.check_eq(m.rdint(o, 8), n, 64, "write() accepts every byte")
    elif how == "write_all":
        L.f("write_all", s, d, n, o)
        m.check_eq(m.rdint(o, 8), 0, 64, "write_all() succeeds")
        L.f("flush", s, o)
        m.check_eq(m.rdint(o, 8), 0, 64, "flush() succeeds")
    else:
        L.update(s, d, n)


def split(m, pfx, lens, which=(), writer=None, each=False, pat=0):
    """a State fed in pieces = Params::hash of the whole input (after every piece when each)"""
    L = Lib(m, pfx)
    msg = arrname("msg", pat)
    P, cfg = _setup(L, which)
    s = L.to_state(P)
    tot = 0
    o = m.buf(8, 8)
    for k, sp in enumerate(lens):
        n = _len(m, "n%d" % k, sp, pat)
        feed(m, L, s, writer[k] if writer else "update", m.view(msg, tot, n), n, o)
        tot = T.add(64, tot, n)
        if each or k == len(lens) - 1:
            h = L.finalize(s)
            L.hash_eq(h, L.hash(P, m.view(msg, 0, tot), tot), "incremental = all at once (after piece %d)" % k)


def split_state(m, pfx, lens, pat=0):
    """State::new() fed in pieces = the free function on the whole input"""
    L = Lib(m, pfx)
    msg = arrname("msg", pat)
    s = L.state()
    tot = 0
    for k, sp in enumerate(lens):
        n = _len(m, "n%d" % k, sp, pat)
        L.update(s, m.view(msg, tot, n), n)
        tot = T.add(64, tot, n)
    h = L.finalize(s)
    g = L.H()
    L.f("oneshot", m.view(msg, 0, tot), tot, g)
    L.hash_eq(h, g, "State::new() + update = free function")


def pure(m, pfx, lens, which=(), order=0):
    """finalize() leaves the State alone; a clone is independent of its original"""
    L = Lib(m, pfx)
    P, cfg = _setup(L, which)
    a = L.to_state(P)
    n0 = _len(m, "n0", lens[0])
    n1 = _len(m, "n1", lens[1])
    L.update(a, m.view("msg", 0, n0), n0)
    c = L.clone_state(a)
    h1 = L.finalize(a)
    h2 = L.finalize(a)
    L.hash_eq(h1, h2, "finalize() twice")
    L.hash_eq(h1, L.finalize(c), "clone finalizes alike")
    if order == 0:
        # the clone goes on with other data; the original must not notice, and then goes on itself
        L.update(c, m.view("other", 0, n1), n1)
        L.finalize(c)
        L.hash_eq(h1, L.finalize(a), "original unaffected by updates of its clone")
        L.update(a, m.view("msg", n0, n1), n1)
        t = T.add(64, n0, n1)
        L.hash_eq(L.finalize(a), L.hash(P, m.view("msg", 0, t), t), "update after finalize() continues the same input")
    else:
        L.update(a, m.view("msg", n0, n1), n1)
        L.finalize(a)
        L.hash_eq(h1, L.finalize(c), "clone unaffected by updates of its original")
        L.update(c, m.view("msg", n0, n1), n1)
        L.hash_eq(L.finalize(a), L.finalize(c), "clone continues like its original")
    m.check_eq(L.count(a), T.zext(64, 128, T.add(64, n0, n1)), 128, "count() after finalize()")


def params_reuse(m, pfx, lens, which, change):
    """Params can be used any number of times, and a clone of them is independent"""
    L = Lib(m, pfx)
    P, cfg = _setup(L, which)
    n = _len(m, "n", lens)
    d = m.view("msg", 0, n)
    h1 = L.hash(P, d, n)
    Q = L.P()
    L.f("params_clone", P, Q)
    L.hash_eq(h1, L.hash(Q, d, n), "clone of Params hashes alike")
    cfg2 = Cfg(L.v)
    cfg2.p, cfg2.hl, cfg2.key, cfg2.last = dict(cfg.p), cfg.hl, cfg.key, cfg.last
    for k in change:
        if L.par and k not in ("hash_length", "key"):
            continue
        set_params(L, Q, cfg2, (k,), tag="q_")
    s = L.to_state(P)
    L.hash(Q, d, n)
    L.hash_eq(h1, L.hash(P, d, n), "Params unaffected by hashing and by changes to a clone")
    L.update(s, d, n)
    L.hash_eq(h1, L.finalize(s), "State made before")
    t = L.to_state(P)
    L.update(t, d, n)
    L.hash_eq(h1, L.finalize(t), "second State of the same Params")


# =====================================================================================
# many::hash_many / many::update_many
# =====================================================================================
def hash_many(m, pfx, lens, which=None, rerun=False, clone=False, per_job=False, spec=False, pat=0):
    """hash_many over jobs of the given lengths = Params::hash of each"""
    L = Lib(m, pfx)
    jobs = []
    N = len(lens)
    P = None
    for k, sp in enumerate(lens):
        if P is None or per_job:
            P = L.params()
            cfg = Cfg(L.v)
            w = (which[k] if per_job else which) or ()
            for x in w:
                set_params(L, P, cfg, (x,), tag="j%d_" % k if per_job else "")
        n = _len(m, "n%d" % k, sp, pat)
        d = m.view(arrname("m%d" % k, pat), 0, n)
        j = L.J()
        L.f("job_new", P, d, n, j)
        if clone:
            c = L.J()
            L.f("job_clone", j, c)
            j = c
        jobs.append((j, P, d, n, cfg))
    L.f("hash_many", m.ptrs([x[0] for x in jobs]), N)
    for k, (j, P, d, n, cfg) in enumerate(jobs):
        h = L.H()
        L.f("job_to_hash", j, h)
        if spec:
            L.check_hash(h, ref_hash(m, L.v, cfg, arrname("m%d" % k, pat), 0, n), cfg.hl, "hash_many: job %d" % k)
        else:
            L.hash_eq(h, L.hash(P, d, n), "hash_many: job %d" % k)
    if rerun:
        L.f("hash_many", m.ptrs([x[0] for x in jobs[rerun - 1:]]), N - rerun + 1)
        for k, (j, P, d, n, cfg) in enumerate(jobs):
            h = L.H()
            L.f("job_to_hash", j, h)
            L.hash_eq(h, L.hash(P, d, n), "hash_many run again: job %d" % k)
    m.check(1, "done")


def update_many(m, pfx, pre, lens, post=None, which=None, per=False, pat=0):
    """update_many = update of each State; pre: bytes fed before, post: bytes fed after"""
    L = Lib(m, pfx)
    N = len(lens)
    A, B = [], []
    P = None
    for k in range(N):
        if P is None or per:
            P = L.params()
            cfg = Cfg(L.v)
            w = (which[k] if per else which) or ()
            for x in w:
                set_params(L, P, cfg, (x,), tag="j%d_" % k if per else "")
        s = L.to_state(P)
        a = _len(m, "a%d" % k, pre[k], pat)
        if type(a) is not int or a:
            L.update(s, m.view(arrname("m%d" % k, pat), 0, a), a)
        t = L.clone_state(s)
        n = _len(m, "n%d" % k, lens[k], pat)
        d = m.view(arrname("m%d" % k, pat), a, n)
        A.append((s, d, n, a))
        B.append(t)
    L.f("update_many", m.ptrs([x[0] for x in A]), m.slices([(x[1], x[2]) for x in A]), N)
    for k in range(N):
        s, d, n, a = A[k]
        t = B[k]
        L.update(t, d, n)
        m.check_eq(L.count(s), L.count(t), 128, "update_many: count of state %d" % k)
        L.hash_eq(L.finalize(s), L.finalize(t), "update_many: state %d" % k)
        if post is not None:
            e = _len(m, "p%d" % k, post, pat)
            x = m.view(arrname("m%d" % k, pat), T.add(64, a, n), e)
            L.update(s, x, e)
            L.update(t, x, e)
            L.hash_eq(L.finalize(s), L.finalize(t), "update after update_many: state %d" % k)
    m.check(1, "done")


def degree(m, pfx):
    """1 <= degree() <= MAX_DEGREE"""
    L = Lib(m, pfx)
    o = m.buf(8, 8)
    L.f("degree", o)
    d = m.rdint(o, 8)
    m.check(T.ule(64, 1, d), "degree() >= 1")
    m.check(T.ule(64, d, L.consts[5]), "degree() <= MAX_DEGREE")
    want = {"b": (64, 64, 16, 16, 128), "s": (32, 32, 8, 8, 64)}[pfx[0]]
    for x, y, n in zip(L.consts[:5], want, ("OUTBYTES", "KEYBYTES", "SALTBYTES", "PERSONALBYTES", "BLOCKBYTES")):
        m.check_eq(x, y, 64, n)


# =====================================================================================
# parameters
# =====================================================================================
LIMITS = {  # setter -> allowed argument
    "hash_length": lambda v, x: T.band(1, T.ule(64, 1, x), T.ule(64, x, v.out)),
    "inner_hash_length": lambda v, x: T.ule(64, x, v.out),
    "node_offset": lambda v, x: 1 if v.w == 64 else T.ult(64, x, 1 << 48),
    "key": lambda v, x: T.ule(64, x, v.key),
    "salt": lambda v, x: T.ule(64, x, v.salt),
    "personal": lambda v, x: T.ule(64, x, v.salt),
}


def setter_range(m, pfx, setter, hi=None):
    """a setter panics exactly on the documented out-of-range arguments"""
    L = Lib(m, pfx)
    v = L.v
    P = L.params()
    x = m.var("x", 64, None, hi)
    ok = m.branch(LIMITS[setter](v, x))
    if setter in ("key", "salt", "personal"):
        p = L.panics(setter, P, m.view("arg", 0, x), x)
    else:
        p = L.panics(setter, P, x)
    m.check_eq(int(p), int(not ok), 1, "%s panics exactly when out of range" % setter)


def setter_override(m, pfx, k, lo=0, hi=0):
    """setting a parameter twice = setting it once to the last value"""
    L = Lib(m, pfx)
    P, Q = L.params(), L.P()
    L.f("params_default", Q)
    c = Cfg(L.v)
    set_params(L, P, c, (k,), tag="first_")
    L_set_same(L, P, Q, c, k)
    n = _len(m, "n", [lo, hi])
    d = m.view("msg", 0, n)
    L.hash_eq(L.hash(P, d, n), L.hash(Q, d, n), "%s set twice = set once" % k)


def L_set_same(L, P, Q, c, k):
    """the same setter call on P and Q"""
    m = L.m
    old = L.f

    def both(name, *a):
        old(name, *a)
        if a and a[0] == P and name == k:
            old(name, Q, *a[1:])
    L.f = both
    try:
        set_params(L, P, c, (k,), tag="last_")
    finally:
        del L.f


def setter_order(m, pfx, which, lo=0, hi=0, swap=None):
    """the order of the setter calls does not matter"""
    L = Lib(m, pfx)
    P, Q = L.params(), L.params()
    calls = []
    old = L.f

    def rec(name, *a):
        if a and a[0] == P:
            calls.append((name, a[1:]))
        old(name, *a)
    L.f = rec
    c = Cfg(L.v)
    try:
        set_params(L, P, c, which)
    finally:
        del L.f
    for name, a in reversed(calls):
        L.f(name, Q, *a)
    n = _len(m, "n", [lo, hi])
    d = m.view("msg", 0, n)
    L.hash_eq(L.hash(P, d, n), L.hash(Q, d, n), "setters in reverse order")


# =====================================================================================
# the Hash value
# =====================================================================================
HEX = b"0123456789abcdef"


def hexdigit(m, x4):
    """ASCII of a 4-bit value"""
    x = T.zext(4, 8, x4)
    return T.ite(8, T.ult(8, x, 10), T.add(8, x, 48), T.add(8, x, 87))


def _array_hash(L, name):
    m, v = L.m, L.v
    bs = m.data_bytes(name, v.out)
    p = m.buf(v.out, 1, "array")
    m.wr(p, bs)
    return bs, p


def hash_bytes(m, pfx, ref=False):
    """Hash::from(array): as_bytes, as_ref, as_array, clone return exactly the array"""
    L = Lib(m, pfx)
    bs, p = _array_hash(L, "arr")
    h = L.H()
    L.f("from_array_ref" if ref else "from_array", p, h)
    g = L.H()
    L.f("hash_clone", h, g)
    o = m.buf(16, 8)
    for x in (h, g):
        for f in ("as_bytes", "as_ref", "as_array"):
            L.f(f, x, o)
            m.check_eq(m.rdint(o + 8, 8), L.v.out, 64, f + "(): length")
            m.check_bytes(m.rd(m.rdint(o, 8), L.v.out), bs, f + "()")


def hash_views(m, pfx, which=("hash_length",), n=0):
    """digest of any hash_length: as_bytes = as_ref, right length, agrees with == and to_hex"""
    L = Lib(m, pfx)
    P, cfg = _setup(L, which)
    h = L.hash(P, m.view("msg", 0, n), n)
    o = m.buf(16, 8)
    L.f("as_bytes", h, o)
    a, an = m.rdint(o, 8), m.rdint(o + 8, 8)
    L.f("as_ref", h, o)
    b, bn = m.rdint(o, 8), m.rdint(o + 8, 8)
    m.check_eq(an, cfg.hl, 64, "as_bytes() length = hash_length")
    m.check_eq(bn, cfg.hl, 64, "as_ref() length = hash_length")
    m.check_eq(a, b, 64, "as_ref() and as_bytes() are the same bytes")
    e = m.buf(1)
    L.f("eq_slice", h, a, an, e)
    m.check_eq(m.rdint(e, 1), 1, 8, "Hash == its own bytes")
    g = L.H()
    L.f("hash_clone", h, g)
    L.f("eq", h, g, e)
    m.check_eq(m.rdint(e, 1), 1, 8, "Hash == its clone")
    L.f("ne", h, g, e)
    m.check_eq(m.rdint(e, 1), 0, 8, "!(Hash != its clone)")


def to_hex(m, pfx, hl=None, debug=False):
    """to_hex() is the lower-case hexadecimal form of the bytes"""
    L = Lib(m, pfx)
    v = L.v
    if hl is None:
        bs, p = _array_hash(L, "arr")
        h = L.H()
        L.f("from_array", p, h)
        n = v.out
    else:
        P = L.params()
        L.f("hash_length", P, hl)
        # a Hash of that length with arbitrary contents
        h = L.hash(P, m.const_bytes([1]), 1)
        n, q = L.hash_bytes(h)
        m.check_eq(n, hl, 64, "length")
        bs = m.data_bytes("arr", hl)
        m.wr(q, bs)
        n = hl
    want = []
    for x in bs[:n]:
        want += [hexdigit(m, T.extract_v(x, 8, 4, 4)), hexdigit(m, T.extract_v(x, 8, 0, 4))]
    out = m.buf(256)
    o = m.buf(8, 8)
    if debug:
        want = list(b"Hash(0x") + want + list(b")")
        L.f("hash_debug", h, 0, out, 256, o)
    else:
        L.f("to_hex", h, out, 256, o)
    m.check_eq(m.rdint(o, 8), len(want), 64, "hex form: length")
    m.check_bytes(m.rd(out, len(want)), want, "hex form")


def hash_cmp(m, pfx):
    """== / != of two Hash values compares all bytes"""
    L = Lib(m, pfx)
    a, pa = _array_hash(L, "a")
    b, pb = _array_hash(L, "b")
    h, g = L.H(), L.H()
    L.f("from_array", pa, h)
    L.f("from_array", pb, g)
    want = 1
    for x, y in zip(a, b):
        want = T.band(1, want, T.eq(8, x, y))
    e = m.buf(1)
    L.f("eq", h, g, e)
    m.check_eq(m.rdint(e, 1), T.zext(1, 8, want), 8, "a == b exactly when all bytes agree")
    L.f("ne", h, g, e)
    m.check_eq(m.rdint(e, 1), T.zext(1, 8, T.bnot1(want)), 8, "a != b exactly when some byte differs")


def hash_cmp_slice(m, pfx, hi):
    """== with a byte slice of any length"""
    L = Lib(m, pfx)
    a, pa = _array_hash(L, "a")
    h = L.H()
    L.f("from_array", pa, h)
    n = m.var("n", 64, 0, hi)
    e = m.buf(1)
    L.f("eq_slice", h, m.view("b", 0, n), n, e)
    want = T.eq(64, n, L.v.out)
    for i, x in enumerate(a):
        want = T.band(1, want, T.eq(8, x, m.byte("b", i)))
    m.check_eq(m.rdint(e, 1), T.zext(1, 8, want), 8, "Hash == slice exactly when length and bytes agree")


def hash_cmp_len(m, pfx, n=1):
    """digests of different hash_length never compare equal, a digest equals exactly its own bytes"""
    L = Lib(m, pfx)
    v = L.v
    P, Q = L.params(), L.params()
    x, y = m.var("x", 64, 1, v.out), m.var("y", 64, 1, v.out)
    L.f("hash_length", P, x)
    L.f("hash_length", Q, y)
    d = m.view("msg", 0, n)
    h, g = L.hash(P, d, n), L.hash(Q, d, n)
    e = m.buf(1)
    if m.branch(T.eq(64, x, y)):
        L.f("eq", h, g, e)
        m.check_eq(m.rdint(e, 1), 1, 8, "equal lengths, equal input: equal")
    else:
        L.f("eq", h, g, e)
        m.check_eq(m.rdint(e, 1), 0, 8, "different lengths: not equal")
        k = m.var("k", 64, 0, v.out)
        m.assume(T.bnot1(T.eq(64, k, x)))
        # a shorter or longer slice that shares its bytes with the digest is not equal to it
        k_ok = m.branch(T.ult(64, k, x))
        if k_ok:
            _, p = L.hash_bytes(h)
            L.f("eq_slice", h, p, k, e)
            m.check_eq(m.rdint(e, 1), 0, 8, "digest != its proper prefix")


# =====================================================================================
# Debug output
# =====================================================================================
def secrecy(m, pfx, what, n, keyn=None, hl=None, alt=0, post=0):
    """Debug output is the same for all keys and messages of the same lengths"""
    L = Lib(m, pfx)
    v = L.v
    outs = []
    if type(n) is not int:
        n = m.var("n", 64, n[0], n[1])
    if keyn is not None and type(keyn) is not int:
        keyn = m.var("keyn", 64, keyn[0], keyn[1])
    for tag in ("x", "y"):
        P = L.params()
        if hl:
            L.f("hash_length", P, hl)
        if keyn is not None:
            L.f("key", P, m.view(tag + "_key", 0, keyn), keyn)
        o = m.buf(8, 8)
        out = m.buf(1024)
        d = m.view(tag + "_msg", 0, n)
        if what == "params":
            L.f("params_debug", P, alt, out, 1024, o)
        elif what == "state":
            s = L.to_state(P)
            L.update(s, d, n)
            if post:
                L.update(s, m.view(tag + "_msg2", 0, post), post)
            L.f("state_debug", s, alt, out, 1024, o)
        else:
            j = L.J()
            L.f("job_new", P, d, n, j)
            if what == "job_done":
                L.f("hash_many", m.ptrs([j]), 1)
            L.f("job_debug", j, alt, out, 1024, o)
        ln = m.concretize(m.rdint(o, 8))
        outs.append((ln, m.rd(out, min(ln, 1024))))
    m.check_eq(outs[0][0], outs[1][0], 64, "Debug output: length independent of secrets")
    m.check_bytes(outs[0][1], outs[1][1], "Debug output independent of key and message")


# =====================================================================================
# large counters
# =====================================================================================
PROBE = 0x0123456789ABC00


def _find_count(m, L, s, div, cw):
    """offsets of the 8-byte words of State that hold the byte counter (found by experiment)"""
    base = L.clone_state(s)
    c0 = m.concretize(L.count(base))
    lo = hi = None
    for off in range(0, L.ssz - 7, 8):
        t = L.clone_state(s)
        if m.concretize(m.rdint(t + off, 8)) != 0 if _concrete(m, t + off) else True:
            continue
        m.wrint(t + off, 8, PROBE)
        try:
            c = L.count(t)
        except Panic:
            continue
        c = m.norm(c)
        if type(c) is not int:
            continue
        d = (c - c0) & T.MASK[128]
        if d == (PROBE * div & (T.MASK[128] if cw == 128 else T.MASK[64])):
            lo = off
        elif d == (PROBE * div << 64) & T.MASK[128]:
            hi = off
    return lo, hi


def _concrete(m, p):
    return type(m.norm(m.rdint(p, 8))) is int


def counter(m, pfx, mode, lens, which=(), lanes=1, pre=0, post=None):
    """compression with any byte counter, however large: the State's counter is set to an arbitrary
    multiple of the block length; pre bytes are fed to each State before the calls, post bytes after"""
    L = Lib(m, pfx)
    v = L.v
    P, cfg = _setup(L, which)
    D = v.fanout if L.par else 1
    s0 = L.to_state(P)
    lo, hi = _find_count(m, L, s0, D, v.cw)
    if lo is None or (v.cw == 128 and hi is None):
        raise SkipPath("the counter of State was not found")
    sh = v.block.bit_length() - 1
    S = []
    for k in range(lanes):
        s = L.clone_state(s0)
        if v.cw == 128:
            c = T.concat([(0, sh), (m.var("c%d_lo" % k, 64 - sh), 64 - sh), (m.var("c%d_hi" % k, 64), 64)])
            m.wrint(s + lo, 8, T.extract_v(c, 128, 0, 64))
            m.wrint(s + hi, 8, T.extract_v(c, 128, 64, 64))
        else:
            c = T.concat([(0, sh), (m.var("c%d" % k, 64 - sh), 64 - sh)])
            m.wrint(s + lo, 8, c)
        S.append((s, c))
    ins = []
    for k, (s, c) in enumerate(S):
        a = _len(m, "a%d" % k, pre)
        if type(a) is not int or a:
            L.update(s, m.view("m%d" % k, 0, a), a)
        n = _len(m, "n%d" % k, lens[k])
        ins.append((m.view("m%d" % k, a, n), n))
        S[k] = (s, c, T.add(64, a, n))
    if mode == "many":
        L.f("update_many", m.ptrs([x[0] for x in S]), m.slices(ins), lanes)
    else:
        for k in range(lanes):
            L.update(S[k][0], ins[k][0], ins[k][1])
    for k, (s, c, n) in enumerate(S):
        if post is not None:
            e = _len(m, "p%d" % k, post)
            L.update(s, m.view("m%d" % k, n, e), e)
            n = T.add(64, n, e)
        h = L.finalize(s)
        if L.par:
            want = ref_parallel(m, v, cfg.hl, 0, None, "m%d" % k, 0, n, t0=c)
        else:
            want = ref_tail(m, v, cfg.words(), c, cfg.key, "m%d" % k, 0, n, cfg.last)
        L.check_hash(h, want, cfg.hl, "hash with a large counter (%s, state %d)" % (mode, k))
        tot = T.add(v.cw, T.mul(v.cw, c, D) if D > 1 else c, T.zext(64, v.cw, n) if v.cw > 64 else n)
        cnt = L.count(s)
        if v.cw == 64:
            cnt = T.extract_v(cnt, 128, 0, 64)
        m.check_eq(cnt, tot, v.cw, "count() with a large counter")


def count_many(m, pfx, lens, which=()):
    """count() after update_many"""
    L = Lib(m, pfx)
    P, cfg = _setup(L, which)
    S = []
    for k, sp in enumerate(lens):
        n = _len(m, "n%d" % k, sp)
        S.append((L.to_state(P), m.view("m%d" % k, 0, n), n))
    L.f("update_many", m.ptrs([x[0] for x in S]), m.slices([(x[1], x[2]) for x in S]), len(S))
    for s, d, n in S:
        m.check_eq(L.count(s), T.zext(64, 128, n), 128, "count() after update_many")


def counting(m, pfx, lens, which=(), clone=False, pat=0):
    """count() = number of bytes fed so far, after every piece, whatever else is called"""
    L = Lib(m, pfx)
    msg = arrname("msg", pat)
    P, cfg = _setup(L, which)
    s = L.to_state(P)
    m.check_eq(L.count(s), 0, 128, "count() of a fresh State")
    tot = 0
    for k, sp in enumerate(lens):
        n = _len(m, "n%d" % k, sp, pat)
        L.update(s, m.view(msg, tot, n), n)
        tot = T.add(64, tot, n)
        m.check_eq(L.count(s), T.zext(64, 128, tot), 128, "count() after piece %d" % k)
        if clone:
            s = L.clone_state(s)
            if clone == "finalize":
                L.finalize(s)
            m.check_eq(L.count(s), T.zext(64, 128, tot), 128, "count() of a clone")


# =====================================================================================
# inputs beyond 2^32 bytes
# =====================================================================================
def huge(m, pfx, lens, how="update", key=0, digest=True):
    """counters and counts around an input of more than 2^32 bytes (see huge.py)"""
    m.opaque()
    L = Lib(m, pfx)
    v = L.v
    P = L.params()
    k = bytes(range(1, key + 1))
    if key:
        L.f("key", P, m.const_bytes(k), key)
    ns = [_len(m, "n%d" % i, x) for i, x in enumerate(lens)]
    bits = 128

    def dig(h, total, label, arr="big"):
        if not digest:
            return
        n, p = L.hash_bytes(h)
        m.check_eq(n, v.out, 64, label + ": length")
        m.huge_digest(m.rd(p, v.out), v, L.par, total, k, arr, label)
    if how == "hash":
        dig(L.hash(P, m.big("big", 0, ns[0]), ns[0]), ns[0], "Params::hash")
    elif how == "oneshot":
        h = L.H()
        L.f("oneshot", m.big("big", 0, ns[0]), ns[0], h)
        dig(h, ns[0], "free function")
    elif how == "hash_many":
        js = []
        for i, n in enumerate(ns):
            j = L.J()
            L.f("job_new", P, m.big("big%d" % i, 0, n), n, j)
            js.append(j)
        L.f("hash_many", m.ptrs(js), len(js))
        for i, j in enumerate(js):
            h = L.H()
            L.f("job_to_hash", j, h)
            dig(h, ns[i], "hash_many: job %d" % i, "big%d" % i)
    elif how == "update_many":
        ss = [L.to_state(P) for _ in ns]
        L.f("update_many", m.ptrs(ss), m.slices([(m.big("big%d" % i, 0, n), n) for i, n in enumerate(ns)]), len(ss))
        for i, s in enumerate(ss):
            m.check_eq(L.count(s), T.zext(64, bits, ns[i]), bits, "update_many: count() of State %d" % i)
            dig(L.finalize(s), ns[i], "update_many: State %d" % i, "big%d" % i)
    else:
        s = L.to_state(P)
        tot = 0
        o = m.buf(8, 8)
        for i, n in enumerate(ns):
            feed(m, L, s, how, m.big("big", tot, n), n, o)
            tot = T.add(64, tot, n)
            m.check_eq(L.count(s), T.zext(64, bits, tot), bits, "count() after piece %d" % i)
        dig(L.finalize(s), tot, "finalize")


# =====================================================================================
# timing
# =====================================================================================
def constant_time(m, pfx, what, n=0, keyn=0, lens=None, **kw):
    """neither branches nor memory addresses depend on message, key or digest bytes"""
    m.watch_secrets()
    L = Lib(m, pfx)
    v = L.v
    P = L.params()
    keyn = _len(m, "key_len", keyn)
    n = _len(m, "n", n)
    if type(keyn) is not int or keyn:
        L.f("key", P, m.view("key", 0, keyn), keyn)
    if what == "state":
        if not L.par:
            L.f("salt", P, m.view("salt", 0, v.salt), v.salt)
            L.f("personal", P, m.view("personal", 0, v.salt), v.salt)
        s = L.to_state(P)
        tot = 0
        for k, x in enumerate(lens):
            x = _len(m, "n%d" % k, x)
            L.update(s, m.view("msg", tot, x), x)
            tot = T.add(64, tot, x)
        L.finalize(s)
    elif what == "hash":
        L.hash(P, m.view("msg", 0, n), n)
    elif what == "many":
        js = []
        for k, x in enumerate(lens):
            x = _len(m, "n%d" % k, x)
            j = L.J()
            L.f("job_new", P, m.view("m%d" % k, 0, x), x, j)
            js.append(j)
        L.f("hash_many", m.ptrs(js), len(js))
    elif what == "update_many":
        ss = [L.to_state(P) for _ in lens]
        ins = []
        for k, x in enumerate(lens):
            x = _len(m, "n%d" % k, x)
            ins.append((m.view("m%d" % k, 0, x), x))
        L.f("update_many", m.ptrs(ss), m.slices(ins), len(lens))
        for s in ss:
            L.finalize(s)
    elif what == "eq":
        a, pa = _array_hash(L, "a")
        b, pb = _array_hash(L, "b")
        h, g = L.H(), L.H()
        L.f("from_array", pa, h)
        L.f("from_array", pb, g)
        e = m.buf(1)
        L.f("eq", h, g, e)
        L.f("ne", h, g, e)
    elif what == "eq_slice":
        a, pa = _array_hash(L, "a")
        h = L.H()
        L.f("from_array", pa, h)
        e = m.buf(1)
        L.f("eq_slice", h, m.view("b", 0, n), n, e)
    elif what == "eq_short":
        P = L.params()
        L.f("hash_length", P, n)
        h, g = L.hash(P, m.view("a", 0, 8), 8), L.hash(P, m.view("b", 0, 8), 8)
        e = m.buf(1)
        L.f("eq", h, g, e)
        L.f("ne", h, g, e)
    m.check(1, "no secret-dependent branch or address")


# =====================================================================================
# defaults, forced implementations, robustness
# =====================================================================================
def defaults(m, pfx, lo, hi):
    """Params::new() = Params::default() = the documented default of every parameter = the free function"""
    L = Lib(m, pfx)
    v = L.v
    P, Q, R = L.params(), L.P(), L.params()
    L.f("params_default", Q)
    n = m.var("n", 64, lo, hi)
    d = m.view("msg", 0, n)
    h = L.hash(P, d, n)
    L.hash_eq(h, L.hash(Q, d, n), "Params::default() = Params::new()")
    L.f("hash_length", R, v.out)
    L.f("key", R, m.view("nothing", 0, 0), 0)
    if not L.par:
        z = m.view("nothing", 0, 0)
        L.f("salt", R, z, 0)
        L.f("personal", R, z, 0)
        for k, x in (("fanout", 1), ("max_depth", 1), ("max_leaf_length", 0), ("node_offset", 0), ("node_depth", 0),
                     ("inner_hash_length", 0), ("last_node", 0)):
            L.f(k, R, x)
    L.hash_eq(h, L.hash(R, d, n), "explicit default values = defaults")
    g = L.H()
    L.f("oneshot", d, n, g)
    L.hash_eq(h, g, "free function = default parameters")
    s = L.state()
    L.update(s, d, n)
    L.hash_eq(h, L.finalize(s), "State::new() = default parameters")


def forced(m, pfx, lens, which=()):
    """the portable implementation gives the same digests as the detected one"""
    L = Lib(m, pfx)
    P, cfg = _setup(L, which)
    Q = L.P()
    L.f("params_clone", P, Q)
    L.f("force_portable", Q)
    s, t = L.to_state(P), L.to_state(Q)
    tot = 0
    for k, sp in enumerate(lens):
        n = _len(m, "n%d" % k, sp)
        d = m.view("msg", tot, n)
        L.update(s, d, n)
        L.update(t, d, n)
        tot = T.add(64, tot, n)
    L.hash_eq(L.finalize(s), L.finalize(t), "portable = detected implementation (incremental)")
    d = m.view("msg", 0, tot)
    L.hash_eq(L.hash(P, d, tot), L.hash(Q, d, tot), "portable = detected implementation (all at once)")


def robust(m, pfx, what, lens, pre=None, which=()):
    """runs to the end: no memory error, no panic, no overflow (the engine checks every access)"""
    L = Lib(m, pfx)
    P, cfg = _setup(L, which)
    o = m.buf(8, 8)
    if what == "hash":
        n = _len(m, "n", lens[0])
        L.hash(P, m.view("msg", 0, n), n)
    elif what in ("state", "write"):
        s = L.to_state(P)
        tot = 0
        for k, sp in enumerate(lens):
            n = _len(m, "n%d" % k, sp)
            feed(m, L, s, ("write", "write_all")[k % 2] if what == "write" else "update", m.view("msg", tot, n), n, o)
            tot = T.add(64, tot, n)
            L.count(s)
        L.finalize(s)
    elif what == "hash_many":
        js = []
        for k, sp in enumerate(lens):
            n = _len(m, "n%d" % k, sp)
            j = L.J()
            L.f("job_new", P, m.view("m%d" % k, 0, n), n, j)
            js.append(j)
        L.f("hash_many", m.ptrs(js), len(js))
        for j in js:
            L.f("job_to_hash", j, L.H())
    elif what == "update_many":
        ss, ins = [], []
        for k, sp in enumerate(lens):
            s = L.to_state(P)
            if pre is not None:
                a = _len(m, "a%d" % k, pre)
                L.update(s, m.view("p%d" % k, 0, a), a)
            n = _len(m, "n%d" % k, sp)
            ss.append(s)
            ins.append((m.view("m%d" % k, 0, n), n))
        L.f("update_many", m.ptrs(ss), m.slices(ins), len(ss))
        for s in ss:
            L.finalize(s)
    m.check(1, "runs to the end")
