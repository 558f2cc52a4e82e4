"""Independent BLAKE2 reference (RFC 7693, the BLAKE2 paper for salt/personal/
tree parameters, and the BLAKE2bp/BLAKE2sp tree layout) over ints or terms.

Nothing here is taken from the code under test; `selftest` compares it with
Python's hashlib (OpenSSL/HACL implementation) on concrete data.
"""
import terms as T

SIGMA = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
]


def _primes(n):
    out = []
    k = 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def _isqrt_frac(p, bits):
    """fractional part of sqrt(p), `bits` bits"""
    import math
    r = math.isqrt(p << (2 * bits))
    return r & ((1 << bits) - 1)


class Variant:
    def __init__(self, name, w, rounds, rots, degree):
        self.name = name
        self.w = w
        self.rounds = rounds
        self.rots = rots
        self.wb = w // 8
        self.block = 16 * self.wb
        self.out = 8 * self.wb
        self.key = 8 * self.wb
        self.salt = 2 * self.wb
        self.cw = 2 * w            # counter width
        self.fanout = degree       # of the parallel mode
        self.iv = [_isqrt_frac(p, w) for p in _primes(8)]

    def compress(self, h, m, t, f0, f1):
        """h: 8 words, m: 16 words, t: counter (2w bits), f0/f1: finalisation words"""
        w = self.w
        add, bxor, rotl = T.add, T.bxor, T.rotl
        v = list(h) + list(self.iv)
        v[12] = bxor(w, v[12], T.extract_v(t, 2 * w, 0, w))
        v[13] = bxor(w, v[13], T.extract_v(t, 2 * w, w, w))
        v[14] = bxor(w, v[14], f0)
        v[15] = bxor(w, v[15], f1)
        r1, r2, r3, r4 = [w - r for r in self.rots]

        def G(a, b, c, d, x, y):
            va, vb, vc, vd = v[a], v[b], v[c], v[d]
            va = add(w, add(w, va, vb), x)
            vd = rotl(w, bxor(w, vd, va), r1)
            vc = add(w, vc, vd)
            vb = rotl(w, bxor(w, vb, vc), r2)
            va = add(w, add(w, va, vb), y)
            vd = rotl(w, bxor(w, vd, va), r3)
            vc = add(w, vc, vd)
            vb = rotl(w, bxor(w, vb, vc), r4)
            v[a], v[b], v[c], v[d] = va, vb, vc, vd
        for r in range(self.rounds):
            s = SIGMA[r % 10]
            G(0, 4, 8, 12, m[s[0]], m[s[1]])
            G(1, 5, 9, 13, m[s[2]], m[s[3]])
            G(2, 6, 10, 14, m[s[4]], m[s[5]])
            G(3, 7, 11, 15, m[s[6]], m[s[7]])
            G(0, 5, 10, 15, m[s[8]], m[s[9]])
            G(1, 6, 11, 12, m[s[10]], m[s[11]])
            G(2, 7, 8, 13, m[s[12]], m[s[13]])
            G(3, 4, 9, 14, m[s[14]], m[s[15]])
        return [bxor(w, bxor(w, h[i], v[i]), v[i + 8]) for i in range(8)]

    def words(self, bs):
        n = self.wb
        return [T.concat([(b, 8) for b in bs[i * n:(i + 1) * n]]) for i in range(len(bs) // n)]

    def bytes(self, ws):
        out = []
        for x in ws:
            for k in range(self.wb):
                out.append(T.extract_v(x, self.w, 8 * k, 8))
        return out

    def param_block(self, p):
        """parameter block (RFC 7693 2.5 / BLAKE2 paper 2.8) as a list of bytes.
        p: dict with digest_length, key_length, fanout, max_depth, leaf_length (32 bit), node_offset, node_depth,
        inner_length, salt (list of bytes), personal"""
        def le(v, n):
            return [T.extract_v(v, 8 * n, 8 * k, 8) for k in range(n)]
        b = [p["digest_length"], p["key_length"], p["fanout"], p["max_depth"]]
        b += le(p["leaf_length"], 4)
        if self.w == 64:
            b += le(p["node_offset"], 8)
            b += [p["node_depth"], p["inner_length"]]
            b += [0] * 14
        else:
            off = p["node_offset"]
            b += [T.extract_v(off, 64, 8 * k, 8) for k in range(6)]
            b += [p["node_depth"], p["inner_length"]]
        b += list(p["salt"]) + list(p["personal"])
        assert len(b) == self.out
        return b

    def init(self, p):
        ws = self.words(self.param_block(p))
        return [T.bxor(self.w, i, x) for i, x in zip(self.iv, ws)]

    def defaults(self, **kw):
        p = dict(digest_length=self.out, key_length=0, fanout=1, max_depth=1, leaf_length=0, node_offset=0, node_depth=0,
                 inner_length=0, salt=[0] * self.salt, personal=[0] * self.salt)
        p.update(kw)
        return p

    def blocks(self, h, t, get, nfull, last_len, last_flag):
        """absorb nfull full non-final blocks then the final one.
        get(i, j): byte j of block i (already zero padded).  last_len: counter increment of the final block
        (int/term of 2w bits)"""
        w = self.w
        cw = 2 * w
        for i in range(nfull):
            t = T.add(cw, t, self.block)
            h = self.compress(h, self.words([get(i, j) for j in range(self.block)]), t, 0, 0)
        t = T.add(cw, t, last_len)
        f1 = last_flag
        h = self.compress(h, self.words([get(nfull, j) for j in range(self.block)]), t, T.MASK[w], f1)
        return h

    def hash_concrete(self, data, params=None, key=b"", last_node=False):
        """plain bytes in, bytes out (ints only)"""
        p = self.defaults(**(params or {}))
        p["key_length"] = len(key)
        msg = bytes(data)
        if key:
            msg = key.ljust(self.block, b"\0") + msg
        n = max(0, (len(msg) - 1) // self.block)
        last = len(msg) - n * self.block
        pad = msg + b"\0" * ((n + 1) * self.block - len(msg))
        h = self.blocks(self.init(p), 0, lambda i, j: pad[i * self.block + j], n, last, T.MASK[self.w] if last_node else 0)
        return bytes(self.bytes(h)[:p["digest_length"]])

    def parallel_concrete(self, data, digest_length=None, key=b""):
        d = self.fanout
        n = digest_length or self.out
        root = []
        for i in range(d):
            sub = b"".join(data[k:k + self.block] for k in range(i * self.block, len(data), d * self.block))
            root.append(self.hash_leaf(sub, i, n, key))
        p = dict(digest_length=n, fanout=d, max_depth=2, node_depth=1, inner_length=self.out, key_length=len(key))
        pp = self.defaults(**p)
        pp["key_length"] = len(key)
        msg = b"".join(root)
        nb = len(msg) // self.block - 1
        h = self.blocks(self.init(pp), 0, lambda i, j: msg[i * self.block + j], nb, self.block, T.MASK[self.w])
        return bytes(self.bytes(h)[:n])

    def hash_leaf(self, sub, i, n, key):
        d = self.fanout
        p = self.defaults(digest_length=n, fanout=d, max_depth=2, node_offset=i, inner_length=self.out)
        p["key_length"] = len(key)
        msg = bytes(sub)
        if key:
            msg = key.ljust(self.block, b"\0") + msg
        nb = max(0, (len(msg) - 1) // self.block)
        last = len(msg) - nb * self.block
        pad = msg + b"\0" * ((nb + 1) * self.block - len(msg))
        h = self.blocks(self.init(p), 0, lambda a, j: pad[a * self.block + j], nb, last, T.MASK[self.w] if i == d - 1 else 0)
        return bytes(self.bytes(h))


B = Variant("blake2b", 64, 12, (32, 24, 16, 63), 4)
S = Variant("blake2s", 32, 10, (16, 12, 8, 7), 8)


def selftest(seed=1):
    """agreement with hashlib on concrete data; returns the number of comparisons"""
    import hashlib
    import random
    r = random.Random(seed)
    n = 0
    for v, hf in ((B, hashlib.blake2b), (S, hashlib.blake2s)):
        for ln in (0, 1, v.block - 1, v.block, v.block + 1, 2 * v.block, 3 * v.block + 7):
            data = bytes(r.randrange(256) for _ in range(ln))
            key = bytes(r.randrange(256) for _ in range(r.choice([0, 1, v.key])))
            salt = bytes(r.randrange(256) for _ in range(v.salt))
            pers = bytes(r.randrange(256) for _ in range(v.salt))
            no = r.getrandbits(64 if v.w == 64 else 48)
            dl, fo, de, ll, nd, il = (r.randint(1, v.out), r.randrange(256), r.randint(1, 255), r.getrandbits(32),
                                      r.randrange(256), r.randint(0, v.out))
            ln_ = r.choice([False, True])
            want = hf(data, digest_size=dl, key=key, salt=salt, person=pers, fanout=fo, depth=de, leaf_size=ll,
                      node_offset=no, node_depth=nd, inner_size=il, last_node=ln_).digest()
            got = v.hash_concrete(data, dict(digest_length=dl, fanout=fo, max_depth=de, leaf_length=ll, node_offset=no,
                                             node_depth=nd, inner_length=il, salt=list(salt), personal=list(pers)),
                                  key, ln_)
            assert want == got, "reference model disagrees with hashlib"
            n += 1
        # parallel mode, composed from hashlib's tree parameters
        for ln in (0, 1, v.block, 4 * v.block + 3, 9 * v.block + 1):
            data = bytes(r.randrange(256) for _ in range(ln))
            key = bytes(r.randrange(256) for _ in range(r.choice([0, 1, v.key])))
            dl = r.randint(1, v.out)
            d = v.fanout
            leaves = b""
            for i in range(d):
                sub = b"".join(data[k:k + v.block] for k in range(i * v.block, ln, d * v.block))
                leaves += _leaf(hf, v, sub, i, dl, key)
            assert v.parallel_concrete(data, dl, key) == _root(hf, v, leaves, dl, key)
            n += 1
    return n


def _leaf(hf, v, sub, i, dl, key):
    # hashlib cannot output more than digest_size bytes, so only full-length digests are compared through it
    if dl == v.out:
        return hf(sub, digest_size=dl, key=key, fanout=v.fanout, depth=2, node_offset=i, inner_size=v.out,
                  last_node=(i == v.fanout - 1)).digest()
    return v.hash_leaf(sub, i, dl, key)


def _root(hf, v, leaves, dl, key):
    # the root has the key length in its parameter block but absorbs no key block
    if not key:
        return hf(leaves, digest_size=dl, fanout=v.fanout, depth=2, node_depth=1, inner_size=v.out, last_node=True).digest()
    p = v.defaults(digest_length=dl, fanout=v.fanout, max_depth=2, node_depth=1, inner_length=v.out)
    p["key_length"] = len(key)
    nb = len(leaves) // v.block - 1
    h = v.blocks(v.init(p), 0, lambda i, j: leaves[i * v.block + j], nb, v.block, T.MASK[v.w])
    return bytes(v.bytes(h)[:dl])


if __name__ == "__main__":
    print(selftest())
