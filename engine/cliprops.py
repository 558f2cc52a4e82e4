"""Scenario programs for the command line tool (run by its real `main`, see machine.Sym.cli / native.NativeCli.cli)."""
import libc
import props
import spec
import terms as T
from machine import Violation, SkipPath

MODES = ("b", "bp", "s", "sp")
FLAG = {"b": [], "bp": [b"-p"], "s": [b"-s"], "sp": [b"-sp"]}


def lower_hex(m, x):
    r = []
    for k in (4, 0):
        n = T.extract_v(x, 8, k, 4)
        n = T.zext(4, 8, n)
        r.append(T.ite(8, T.ult(8, n, 10), T.add(8, n, 48), T.add(8, n, 87)))
    return r


def digits(m, name, k):
    """k decimal digits; (characters, value as 64-bit term)"""
    cs = [m.var("%s%d" % (name, i), 8, 48, 57) for i in range(k)]
    v = 0
    for c in cs:
        v = T.add(64, T.mul(64, v, 10), T.sub(64, T.zext(8, 64, c), 48))
    return cs, v


def hexchars(m, name, k, any_=False):
    """k characters, hexadecimal digits of either case (or, with any_, any printable ASCII)"""
    cs = []
    for i in range(k):
        c = m.var("%s%d" % (name, i), 8, 33, 126)
        m.assume(T.bnot1(T.eq(8, c, 61)))        # the argument parser drops a leading = of a value
        if not any_:
            m.assume(ishex(c))
        cs.append(c)
    return cs


def hexbytes(m, name, k):
    """k hexadecimal digits of either case; (characters, their values): the characters are computed from the values, so that
    decoding them gives the values back"""
    cs, ns = [], []
    for i in range(k):
        n = m.var("%sv%d" % (name, i), 4)
        up = m.var("%su%d" % (name, i), 1)
        z = T.zext(4, 8, n)
        ns.append(n)
        cs.append(T.ite(8, T.ult(8, z, 10), T.add(8, z, 48), T.ite(8, up, T.add(8, z, 55), T.add(8, z, 87))))
    return cs, ns


def within(c, lo, hi):
    return T.band(1, T.ule(8, lo, c), T.ule(8, c, hi))


def ishex(c):
    return T.bor(1, within(c, 48, 57), T.bor(1, within(c, 97, 102), within(c, 65, 70)))


def nibble(c):
    return T.ite(8, T.ule(8, c, 57), T.sub(8, c, 48), T.ite(8, T.ule(8, c, 70), T.sub(8, c, 55), T.sub(8, c, 87)))


def unhex(m, cs):
    """bytes, or None when not valid"""
    if len(cs) % 2:
        return None
    for c in cs:
        if type(c) is int:
            if chr(c) not in "0123456789abcdefABCDEF":
                return None
        elif not m.branch(ishex(c)):
            return None
    return [T.add(8, T.mul(8, nibble(a), 16), nibble(b)) for a, b in zip(cs[::2], cs[1::2])]


def join(ns):
    """bytes of a list of half bytes, or None"""
    if len(ns) % 2:
        return None
    return [T.concat([(b, 4), (a, 4)]) for a, b in zip(ns[::2], ns[1::2])]


class Want:
    """the parameters the options name"""

    def __init__(self, mode):
        self.mode = mode
        self.v = props.V[mode[0]]
        self.par = len(mode) == 2
        self.c = props.Cfg(self.v)
        self.keyn = 0
        self.bad = False

    def set(self, m, k, x):
        v, c = self.v, self.c
        if self.bad:
            return
        if type(x) is tuple and type(x[1]) is not list:        # (value modulo 2^64, does it exceed 64 bits)
            x, over = x
            if m.branch(over):
                self.bad = True
                return
        if self.par and k not in ("length", "key"):
            self.bad = True
        elif k == "length":
            if m.branch(T.band(1, T.ule(64, 1, x), T.ule(64, x, v.out))):
                c.hl = m.norm(x)
                c.p["digest_length"] = T.extract_v(x, 64, 0, 8)
            else:
                self.bad = True
        elif k in ("key", "salt", "personal"):
            bs = unhex(m, x) if type(x) is list else join(x[0] + x[1])
            n = v.key if k == "key" else v.salt
            if bs is None or len(bs) > n:
                self.bad = True
            elif k == "key":
                c.p["key_length"] = self.keyn = len(bs)
                c.key = (bs + [0] * v.block)[:v.block] if bs else None
            else:
                c.p[k] = (bs + [0] * n)[:n]
        elif k == "last-node":
            c.last = 1
        else:
            w, f = {"fanout": (8, "fanout"), "max-depth": (8, "max_depth"), "node-depth": (8, "node_depth"),
                    "max-leaf-length": (32, "leaf_length"), "node-offset": (64, "node_offset"),
                    "inner-hash-length": (64, "inner_length")}[k]
            hi = T.MASK[w] if w < 64 else T.MASK[64] if k == "node-offset" and v.w == 64 else T.MASK[48] if k == "node-offset" else v.out
            if not m.branch(T.ule(64, x, hi)):
                self.bad = True
                return
            c.p[f] = T.extract_v(x, 64, 0, 8 if k == "inner-hash-length" else w)

    def digest(self, m, arr, n):
        if self.par:
            return props.ref_parallel(m, self.v, self.c.hl, self.keyn, self.c.key, arr, 0, n)
        return props.ref_hash(m, self.v, self.c, arr, 0, n)

    def line(self, m, arr, n):
        hl = m.concretize(self.c.hl)
        out = []
        for x in self.digest(m, arr, n)[:hl]:
            out += lower_hex(m, x)
        return out


def cli_options(m, mode, opts, lo=0, hi=3, stdin=True, flags=None):
    """options with symbolic values; the digest of a short input, or a refusal.
    opts: list of (option, kind, ...): ('length', 'num', prefix digits, symbolic digits), ('key', 'hex', fixed prefix, symbolic
    characters), ('key', 'any', fixed prefix, symbolic characters), ('last-node',)"""
    W = Want(mode)
    loose = False
    args = [list(b"blake2")] + [list(x) for x in (FLAG[mode] if flags is None else [f.encode() for f in flags])]
    for k, o in enumerate(opts):
        name = o[0]
        if len(o) == 1:
            args.append(list(b"--" + name.encode()))
            W.set(m, name, None)
            continue
        _, kind, pre, n = o
        pre = list(pre.encode())
        if kind == "num":
            cs, x = digits(m, "o%d_" % k, n)
            base = int(bytes(pre) or b"0")
            full = base * 10 ** n
            x = T.add(64, full & T.MASK[64], x)
            # does the decimal number exceed 2^64 - 1?
            lim = (1 << 64) - 1 - full
            low = T.sub(64, x, full & T.MASK[64])
            # a name for the value, so that the reference computes with the number and not with its digits
            y = m.var("eq_%d" % k, 64)
            m.assume(T.eq(64, y, x))
            x = y
            x = (x, 1 if lim < 0 else T.ult(64, lim, low) if lim < 10 ** n else 0)
        else:
            if kind == "any":
                cs = hexchars(m, "o%d_" % k, n, True)
                x = pre + cs
                loose = True
            else:
                cs, ns = hexbytes(m, "o%d_" % k, n)
                x = ([int(chr(c), 16) for c in pre], ns)
        args.append(list(b"--" + name.encode() + b"=") + pre + cs)
        W.set(m, name, x)
    n = m.var("n", 64, lo, hi)
    f = libc.File(b"in", n, "msg")
    if not stdin:
        args.append(list(b"in"))
    code, out = m.cli(args, [] if stdin else [f], f if stdin else None)
    if W.bad:
        m.check_bytes(out, [], "nothing is printed for options the hash function does not support")
        m.check_eq(int(code != 0), 1, 8, "unsupported options are refused")
        return
    m.check_eq(code, 0, 32, "exit status")
    if loose:
        # about what is accepted; what the digest is is checked with digits known to be valid
        m.check_eq(len(out), 2 * m.concretize(W.c.hl) + 1, 32, "a digest is printed")
        return
    m.check_bytes(out, W.line(m, "msg", n) + [10], "digest printed")


def cli_conflict(m, flags):
    """-b with -s is refused"""
    f = libc.File(b"in", m.var("n", 64, 0, 3), "msg")
    code, out = m.cli([list(b"blake2")] + [list(x.encode()) for x in flags] + [list(b"in")], [f])
    m.check_bytes(out, [], "nothing is printed for contradictory options")
    m.check_eq(int(code != 0), 1, 8, "contradictory options are refused")


def cli_input(m, mode, lens, nreads=0, stdin=False, mmap=False, pat=0, flags=()):
    """the digest of exactly the bytes of the input, however the reads are cut up, interrupted or failing"""
    W = Want(mode)
    arr = props.arrname("msg", pat)
    n = props._len(m, "n", lens, pat)
    args = [list(b"blake2")] + [list(x) for x in FLAG[mode]] + [list(x.encode()) for x in flags] + ([list(b"--mmap")] if mmap else [])
    f = libc.File(b"in", n, arr)
    if not stdin:
        args.append(list(b"in"))
    code, out = m.cli(args, [] if stdin else [f], f if stdin else None, nreads)
    if mmap and stdin:
        m.check_bytes(out, [], "nothing is printed when the input cannot be mapped")
        m.check_eq(int(code != 0), 1, 8, "a memory map of standard input is refused")
        return
    if mmap and m.branch(T.eq(64, n, 0)) and code != 0:
        # an empty file need not be mappable, but then no digest is printed
        m.check_bytes(out, [], "nothing is printed when the input cannot be mapped")
        return
    if m.io.failed:
        m.check_bytes(out, [], "no digest is printed when reading fails")
        m.check_eq(int(code != 0), 1, 8, "exit status after a read error")
        return
    m.check_eq(code, 0, 32, "exit status")
    m.check_bytes(out, W.line(m, arr, n) + [10], "digest printed")


def cli_files(m, mode, lens, nreads=0, mmap=False):
    """several files, any of which may be missing or unreadable (a directory)"""
    W = Want(mode)
    args = [list(b"blake2")] + [list(x) for x in FLAG[mode]] + ([list(b"--mmap")] if mmap else [])
    fs = []
    for i, l in enumerate(lens):
        n = props._len(m, "n%d" % i, l, 0)
        e = m.concretize(m.var("err%d" % i, 8, 0, 2))
        fs.append(libc.File(b"in%d" % i, n, "msg%d" % i, err=libc.ENOENT if e == 1 else None, isdir=e == 2))
        args.append(list(b"in%d" % i))
    code, out = m.cli(args, fs, None, nreads)
    want = []
    failed = False
    for i, f in enumerate(fs):
        if f.err or f.isdir or f.failed:
            failed = True
            continue
        want += W.line(m, "msg%d" % i, f.size) + ([32, 32] + list(f.name) if len(fs) > 1 else []) + [10]
    m.check_eq(int(code != 0), int(failed), 8, "exit status tells whether every file was hashed")
    m.check_bytes(out, want, "one line per readable file")
