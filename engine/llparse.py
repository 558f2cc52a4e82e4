"""Parser for LLVM textual IR (the whole-program module rustc emits after LTO).

`Module(path)` indexes the file; function bodies are parsed on first use.  Only
what the executor needs is kept: attributes, metadata and debug records are
dropped.  Unknown syntax raises ParseError for the function that contains it,
never silently skips it.
"""
import re

TOK = re.compile(r'''c?"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)|![-a-zA-Z0-9._]*|#\d+|-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|[a-zA-Z_$.][\w.$]*|<\{|\}>|\.\.\.|[<>\[\]{}(),=*:|]''')


class ParseError(Exception):
    pass


# types: ('i',w) ('p',) ('v',n,T) ('a',n,T) ('s',(T..),packed) ('void',) ('f',w) ('x',)
I1 = ("i", 1)
I8 = ("i", 8)
I32 = ("i", 32)
I64 = ("i", 64)
PTR = ("p",)
VOID = ("void",)
_icache = {}


def ity(w):
    t = _icache.get(w)
    if t is None:
        t = _icache[w] = ("i", w)
    return t


def align_of(t):
    k = t[0]
    if k == "i":
        w = t[1]
        if w <= 8:
            return 1
        if w <= 16:
            return 2
        if w <= 32:
            return 4
        if w <= 64:
            return 8
        return 16
    if k == "p":
        return 8
    if k == "f":
        return t[1] // 8
    if k == "v":
        return 1 << (size_of(t) - 1).bit_length()
    if k == "a":
        return align_of(t[2])
    if k == "s":
        if t[2] or not t[1]:
            return 1
        return max(align_of(x) for x in t[1])
    raise ParseError("align of %r" % (t,))


def store_size(t):
    k = t[0]
    if k == "i":
        return (t[1] + 7) // 8
    if k == "p":
        return 8
    if k == "f":
        return t[1] // 8
    if k == "v":
        return (t[1] * bits_of(t[2]) + 7) // 8
    return size_of(t)


def bits_of(t):
    if t[0] == "i":
        return t[1]
    if t[0] == "p":
        return 64
    if t[0] == "f":
        return t[1]
    if t[0] == "v":
        return t[1] * bits_of(t[2])
    raise ParseError("bits of %r" % (t,))


def size_of(t):
    k = t[0]
    if k in ("i", "p", "f"):
        a = align_of(t)
        s = store_size(t)
        return (s + a - 1) // a * a
    if k == "v":
        s = store_size(t)
        a = 1 << (s - 1).bit_length()
        return (s + a - 1) // a * a
    if k == "a":
        return t[1] * size_of(t[2])
    if k == "s":
        off = 0
        for x in t[1]:
            if not t[2]:
                a = align_of(x)
                off = (off + a - 1) // a * a
            off += size_of(x)
        a = align_of(t)
        return (off + a - 1) // a * a
    raise ParseError("size of %r" % (t,))


def field_offsets(t):
    offs = []
    off = 0
    for x in t[1]:
        if not t[2]:
            a = align_of(x)
            off = (off + a - 1) // a * a
        offs.append(off)
        off += size_of(x)
    return offs


ITY = re.compile(r"i(\d+)$")
VALWORDS = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr",
            "ptrtoint", "ptrtoaddr", "splat", "bitcast", "trunc", "sub", "add", "xor", "none", "addrspacecast"}
TYPEWORDS = {"ptr", "void", "label", "metadata", "float", "double", "half", "token", "x86_fp80", "fp128"}


class P:
    """token cursor"""
    __slots__ = ("t", "i", "m")

    def __init__(self, toks, m):
        self.t = toks
        self.i = 0
        self.m = m

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.i >= len(self.t) or self.t[self.i] != x:
            raise ParseError("expected %r at %d in %s" % (x, self.i, " ".join(self.t[max(0, self.i - 8):self.i + 8])))
        self.i += 1

    def is_type(self):
        x = self.peek()
        return x in TYPEWORDS or x in ("<", "[", "{", "<{") or (x[:1] == "i" and ITY.match(x) is not None) or \
            (x[:1] == "%" and x in self.m.types)

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def skip_attrs(self):
        """parameter / return attributes (up to a type or value)"""
        while True:
            x = self.peek()
            if not x:
                return
            if x == "align":
                self.i += 1
                if self.peek() == "(":
                    self.skip_parens()
                else:
                    self.i += 1
                continue
            if x[0].isalpha() or x[0] == "_":
                if x in VALWORDS or self.is_type():
                    return
                self.i += 1
                if self.peek() == "(":
                    self.skip_parens()
                continue
            if x[0] == '"':
                self.i += 1
                if self.accept("="):
                    self.i += 1
                continue
            if x[0] == "#":
                self.i += 1
                continue
            return

    def type(self):
        x = self.next()
        m = ITY.match(x)
        if m:
            t = ity(int(m.group(1)))
        elif x == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.i += 1
                self.skip_parens()
        elif x == "void":
            t = VOID
        elif x == "label":
            t = ("label",)
        elif x == "metadata":
            t = ("metadata",)
        elif x == "float":
            t = ("f", 32)
        elif x == "double":
            t = ("f", 64)
        elif x == "half":
            t = ("f", 16)
        elif x == "<":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            t = ("v", n, e)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("a", n, e)
        elif x in ("{", "<{"):
            end = "}" if x == "{" else "}>"
            fs = []
            while not self.accept(end):
                fs.append(self.type())
                self.accept(",")
            t = ("s", tuple(fs), x == "<{")
        elif x[0] == "%" and x in self.m.types:
            t = self.m.types[x]
        else:
            raise ParseError("type %r in %s" % (x, " ".join(self.t[:40])))
        # function pointer type suffix "(...)"; only in calls -> handled by caller
        return t

    def value(self, t):
        """('l',name) | ('c',const) ; const = int | tuple | ('g',name,off) | ('undef',) ..."""
        x = self.next()
        c = x[0]
        if c == "%":
            return ("l", x)
        if c == "@":
            return ("c", ("g", x, 0))
        if c == "-" or c.isdigit():
            if t[0] == "f":
                return ("c", ("flt", x))
            return ("c", int(x) & ((1 << bits_of(t)) - 1))
        if x == "true":
            return ("c", 1)
        if x == "false":
            return ("c", 0)
        if x == "null":
            return ("c", 0)
        if x in ("undef", "poison"):
            return ("c", ("undef",))
        if x in ("zeroinitializer", "none"):
            return ("c", ("zero",))
        if c == "c":
            return ("c", ("bytes", cstr(x[2:-1])))
        if x == "splat":
            self.expect("(")
            et = self.type()
            v = self.const(et)
            self.expect(")")
            return ("c", ("agg", (v,) * t[1]))
        if x in ("<", "[", "{", "<{"):
            end = {"<": ">", "[": "]", "{": "}", "<{": "}>"}[x]
            vs = []
            while not self.accept(end):
                et = self.type()
                vs.append(self.const(et))
                self.accept(",")
            return ("c", ("agg", tuple(vs)))
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc", "ptrtoaddr", "addrspacecast"):
            self.expect("(")
            et = self.type()
            v = self.const(et)
            if self.next() != "to":
                raise ParseError("cast")
            self.type()
            self.expect(")")
            return ("c", v)
        if x in ("sub", "add", "xor"):
            while self.peek() in ("nuw", "nsw"):
                self.i += 1
            self.expect("(")
            et = self.type()
            a = self.const(et)
            self.expect(",")
            et = self.type()
            b = self.const(et)
            self.expect(")")
            return ("c", ("bin", x, bits_of(et), a, b))
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.i += 1
                if self.peek() == "(" and self.t[self.i - 1] == "inrange":
                    self.skip_parens()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            pt = self.type()
            base = self.const(pt)
            idx = []
            while self.accept(","):
                it = self.type()
                idx.append((it, self.const(it)))
            self.expect(")")
            off = gep_const(bt, [(it, v) for it, v in idx])
            if type(base) is int:
                return ("c", (base + off) & ((1 << 64) - 1))
            if base[0] == "g":
                return ("c", ("g", base[1], base[2] + off))
            raise ParseError("gep base")
        raise ParseError("value %r in %s" % (x, " ".join(self.t[:40])))

    def const(self, t):
        k, v = self.value(t)
        if k != "c":
            raise ParseError("constant expected")
        return v


def _sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def gep_const(bt, idx):
    off = 0
    t = bt
    for n, (it, v) in enumerate(idx):
        v = _sg(v, it[1])
        if n == 0:
            off += v * size_of(t)
        elif t[0] == "s":
            off += field_offsets(t)[v]
            t = t[1][v]
        else:
            off += v * size_of(t[2])
            t = t[2]
    return off


def cstr(s):
    out = bytearray()
    i = 0
    n = len(s)
    while i < n:
        ch = s[i]
        if ch == "\\":
            if s[i + 1] == "\\":
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(ch))
            i += 1
    return bytes(out)


class Fn:
    __slots__ = ("name", "params", "ret", "attr", "start", "end", "decl", "blocks", "order", "noreturn", "features",
                 "code", "hdr", "module")


class Block:
    __slots__ = ("name", "phis", "ins")

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []


def unq(x):
    if len(x) > 2 and x[1] == '"':
        return x[0] + x[2:-1]
    return x


class Module:
    def __init__(self, path):
        with open(path, encoding="utf-8", errors="surrogateescape") as f:
            self.lines = f.read().split("\n")
        self.types = {}
        self.globals = {}      # name -> dict
        self.aliases = {}
        self.fns = {}
        self.decls = {}
        self.attrs = {}
        self.big_endian = False
        self._index()
        self.program = "@main" in self.fns     # a whole program, not the harness library

    def _index(self):
        L = self.lines
        n = len(L)
        i = 0
        while i < n:
            s = L[i]
            if not s:
                i += 1
                continue
            c = s[0]
            if c == "@":
                self._global(s)
            elif c == "%":
                m = re.match(r"(%\S+) = type (.*)$", s)
                if m and "opaque" not in m.group(2):
                    self.types[m.group(1)] = P(TOK.findall(m.group(2)), self).type()
            elif s.startswith("define "):
                j = i + 1
                while L[j] != "}":
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', s)
                name = unq("@" + m.group(1))
                f = Fn()
                f.name = name
                f.start, f.end = i, j
                f.blocks = None
                f.code = None
                f.decl = False
                f.hdr = s
                f.module = self
                self.fns[name] = f
                i = j
            elif s.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', s)
                self.decls[unq("@" + m.group(1))] = s
            elif s.startswith("attributes #"):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", s)
                self.attrs[m.group(1)] = m.group(2)
            elif s.startswith("target datalayout"):
                self.big_endian = '"E' in s
            i += 1

    def fn_attr(self, hdr):
        out = []
        for g in re.findall(r"#\d+", hdr[hdr.rfind(")"):]):
            out.append(self.attrs.get(g, ""))
        return " ".join(out)

    def is_noreturn_decl(self, name):
        h = self.decls.get(name)
        return h is not None and "noreturn" in self.fn_attr(h)

    def _global(self, s):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', s)
        name = unq(m.group(1))
        rest = m.group(2)
        if re.search(r"(^|\s)alias\s", rest[:120]):
            tg = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', rest)
            self.aliases[name] = unq(tg[-1])
            return
        self.globals[name] = {"text": rest, "parsed": None}

    def global_(self, name):
        g = self.globals[name]
        if g["parsed"] is None:
            p = P(TOK.findall(g["text"]), self)
            tls = False
            while True:
                x = p.next()
                if x == "thread_local":
                    tls = True
                    if p.peek() == "(":
                        p.skip_parens()
                elif x in ("global", "constant"):
                    break
                elif p.peek() == "(":
                    p.skip_parens()
            ro = x == "constant"
            t = p.type()
            init = None
            if p.i < len(p.t) and p.peek() != ",":
                init = p.const(t)
            al = align_of(t)
            m = re.search(r", align (\d+)", g["text"])
            if m:
                al = int(m.group(1))
            g["parsed"] = (t, init, ro, al, tls)
        return g["parsed"]

    # ------------------------------------------------------------ functions
    def fn(self, name):
        name = self.aliases.get(name, name)
        f = self.fns.get(name)
        if f is None:
            return None
        if f.blocks is None:
            self._parse_fn(f)
        return f

    def _parse_fn(self, f):
        hdr = f.hdr
        attr = self.fn_attr(hdr)
        f.attr = attr
        f.noreturn = "noreturn" in attr.split()
        m = re.search(r'"target-features"="([^"]*)"', attr)
        f.features = frozenset(x[1:] for x in m.group(1).split(",") if x.startswith("+")) if m else frozenset()
        # parameters
        k = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', hdr).end()
        p = P(TOK.findall(hdr[k - 1:]), self)
        p.expect("(")
        f.params = []
        n = 0
        while not p.accept(")"):
            if p.accept("..."):
                continue
            t = p.type()
            p.skip_attrs()
            if p.peek()[:1] == "%":
                nm = p.next()
            else:
                nm = "%%%d" % n
            if re.fullmatch(r"%\d+", nm):
                n += 1
            f.params.append((t, unq(nm)))
            p.accept(",")
        # blocks
        f.blocks = {}
        f.order = []
        cur = None
        L = self.lines
        i = f.start + 1
        while i < f.end:
            s = L[i]
            i += 1
            if not s or s[0] == ";":
                continue
            if s[0] != " ":
                nm = s[:s.index(":")] if not s.startswith('"') else s[:s.index('":') + 1]
                nm = unq("%" + nm)
                cur = f.blocks[nm] = Block(nm)
                f.order.append(nm)
                continue
            if cur is None:
                nm = "%%%d" % n         # the entry block takes the next number after the unnamed parameters
                cur = f.blocks[nm] = Block(nm)
                f.order.append(nm)
            st = s.strip()
            if st.startswith("#dbg") or st[0] == ";":
                continue
            # multi-line switch / invoke / landingpad
            if st.startswith("switch ") and st.endswith("["):
                while True:
                    q = L[i].strip()
                    i += 1
                    st += " " + q
                    if q.startswith("]"):
                        break
            elif "invoke " in st and " unwind label " not in st:
                st += " " + L[i].strip()
                i += 1
            elif "landingpad" in st:
                while L[i].startswith("          "):
                    i += 1
                cur.ins.append(("landingpad",))
                continue
            ins = self._ins(st)
            if ins is None:
                continue
            if ins[0] == "phi":
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)

    BIN = {"add", "sub", "mul", "xor", "and", "or", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"}
    FLAGS = {"nuw", "nsw", "exact", "inbounds", "disjoint", "nneg", "samesign", "tail", "musttail", "notail", "nusw",
             "volatile", "fast", "nnan"}
    CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "ptrtoaddr", "freeze"}

    def _ins(self, st):
        if "@llvm.lifetime" in st or "@llvm.experimental.noalias" in st or "@llvm.dbg" in st:
            return None
        toks = TOK.findall(st)
        p = P(toks, self)
        dst = None
        if toks[0][0] == "%" and toks[1] == "=":
            dst = unq(toks[0])
            p.i = 2
        op = p.next()
        while op in self.FLAGS:
            op = p.next()
        if op in self.BIN:
            while p.peek() in self.FLAGS:
                p.i += 1
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return ("bin", dst, op, t, a, b)
        if op == "load":
            at = p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            p.expect(",")
            p.type()
            a = p.value(PTR)
            m = re.search(r", align (\d+)", st)
            return ("load", dst, t, a, int(m.group(1)) if m else align_of(t))
        if op == "store":
            p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.type()
            a = p.value(PTR)
            m = re.search(r", align (\d+)", st)
            return ("store", t, v, a, int(m.group(1)) if m else align_of(t))
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.i += 1
            bt = p.type()
            p.expect(",")
            pt = p.type()
            a = p.value(pt)
            idx = []
            while p.accept(","):
                if p.peek()[:1] == "!":
                    break
                it = p.type()
                idx.append((it, p.value(it)))
            return ("gep", dst, bt, pt, a, idx)
        if op == "icmp":
            while p.peek() in self.FLAGS:
                p.i += 1
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return ("icmp", dst, pred, t, a, b)
        if op == "phi":
            while p.peek() in self.FLAGS:
                p.i += 1
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                lb = unq(p.next())
                p.expect("]")
                inc.append((v, lb))
                if not p.accept(","):
                    break
                if p.peek()[:1] == "!":
                    break
            return ("phi", dst, t, inc)
        if op == "br":
            if p.accept("label"):
                return ("br", unq(p.next()))
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = unq(p.next())
            p.expect(",")
            p.expect("label")
            b = unq(p.next())
            return ("cbr", c, a, b)
        if op == "ret":
            t = p.type()
            if t == VOID:
                return ("ret", None, None)
            return ("ret", t, p.value(t))
        if op == "unreachable":
            return ("unreachable",)
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.expect("label")
            d = unq(p.next())
            p.expect("[")
            cs = []
            while not p.accept("]"):
                ct = p.type()
                cv = p.const(ct)
                p.expect(",")
                p.expect("label")
                cs.append((cv, unq(p.next())))
            return ("switch", t, v, d, cs)
        if op in ("call", "invoke"):
            return self._call(p, dst, op, st)
        if op in self.CAST:
            while p.peek() in self.FLAGS:
                p.i += 1
            t = p.type()
            v = p.value(t)
            t2 = t
            if op != "freeze":
                if p.next() != "to":
                    raise ParseError(st[:200])
                t2 = p.type()
            return ("cast", dst, op, t, v, t2)
        if op == "select":
            while p.peek() in self.FLAGS:
                p.i += 1
            ct = p.type()
            c = p.value(ct)
            p.expect(",")
            t = p.type()
            a = p.value(t)
            p.expect(",")
            p.type()
            b = p.value(t)
            return ("select", dst, ct, c, t, a, b)
        if op == "alloca":
            t = p.type()
            cnt = ("c", 1)
            if p.accept(","):
                if p.is_type():
                    ct = p.type()
                    cnt = p.value(ct)
            m = re.search(r", align (\d+)", st)
            return ("alloca", dst, t, cnt, int(m.group(1)) if m else align_of(t))
        if op == "extractvalue":
            t = p.type()
            v = p.value(t)
            idx = []
            while p.accept(","):
                if p.peek()[:1] == "!":
                    break
                idx.append(int(p.next()))
            return ("extractvalue", dst, t, v, idx)
        if op == "insertvalue":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            et = p.type()
            e = p.value(et)
            idx = []
            while p.accept(","):
                if p.peek()[:1] == "!":
                    break
                idx.append(int(p.next()))
            return ("insertvalue", dst, t, v, et, e, idx)
        if op == "extractelement":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            it = p.type()
            return ("extractelement", dst, t, v, it, p.value(it))
        if op == "insertelement":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            et = p.type()
            e = p.value(et)
            p.expect(",")
            it = p.type()
            return ("insertelement", dst, t, v, e, it, p.value(it))
        if op == "shufflevector":
            t = p.type()
            a = p.value(t)
            p.expect(",")
            p.type()
            b = p.value(t)
            p.expect(",")
            mt = p.type()
            k = p.const(mt)
            if k == ("zero",):
                k = (0,) * mt[1]
            elif k == ("undef",):
                k = (None,) * mt[1]
            else:
                k = tuple(x if type(x) is int else None for x in k[1])
            return ("shuffle", dst, t, a, b, k)
        if op == "fence":
            return None
        if op == "atomicrmw":
            p.accept("volatile")
            kind = p.next()
            p.type()
            a = p.value(PTR)
            p.expect(",")
            t = p.type()
            v = p.value(t)
            return ("rmw", dst, kind, t, a, v)
        if op == "cmpxchg":
            p.accept("weak")
            p.accept("volatile")
            p.type()
            a = p.value(PTR)
            p.expect(",")
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.type()
            n = p.value(t)
            return ("cmpxchg", dst, t, a, c, n)
        if op == "resume":
            return ("resume",)
        return ("unknown", dst, st[:200])

    CC = {"fastcc", "coldcc", "ccc", "preserve_mostcc", "tailcc"}

    def _call(self, p, dst, op, st):
        while p.peek() in self.CC:
            p.i += 1
        p.skip_attrs()
        rt = p.type()
        # function type suffix for varargs: "i64 (i64, ...)"
        if p.peek() == "(":
            p.skip_parens()
        asm = None
        if p.peek() == "asm":
            p.i += 1
            fl = []
            while p.peek()[0] not in '"':
                fl.append(p.next())
            txt = p.next()[1:-1]
            p.expect(",")
            cons = p.next()[1:-1]
            asm = (txt, cons)
            callee = None
        else:
            callee = p.value(PTR)
        p.expect("(")
        args = []
        while not p.accept(")"):
            t = p.type()
            p.skip_attrs()
            if t[0] == "metadata":
                # metadata operand: skip to , or )
                d = 0
                while True:
                    x = p.peek()
                    if d == 0 and x in (",", ")"):
                        break
                    if x == "(":
                        d += 1
                    if x == ")":
                        d -= 1
                    p.i += 1
                args.append((t, ("c", 0)))
            else:
                args.append((t, p.value(t)))
            p.accept(",")
        norm = None
        if op == "invoke":
            m = re.search(r'to label (%(?:"[^"]*"|[-a-zA-Z$._0-9]+))', st)
            norm = unq(m.group(1))
        nr = False
        tail = p.t[p.i:p.i + 3]
        for x in tail:
            if x[:1] == "#" and "noreturn" in self.attrs.get(x, "").split():
                nr = True
        if asm:
            return ("asm", dst, rt, asm, args)
        return ("call", dst, rt, callee, args, norm, nr)
