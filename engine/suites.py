"""Which scenarios decide which property, within which bounds."""
from runner import Scenario
import spec

CPUS = ("portable", "sse4.1", "avx2")
ODD = ("avx-without-avx2", "avx2-without-os-support", "ssse3-only")
V = {"b": spec.B, "s": spec.S}
ALLP = ["hash_length", "salt", "personal", "fanout", "max_depth", "max_leaf_length", "node_offset", "node_depth",
        "inner_hash_length", "last_node"]
K = 65536        # long inputs: all but the last block fixed
ALLK = ALLP + ["key"]


def S(fn, **kw):
    return Scenario("props:" + fn, **kw)


class Suite:
    def __init__(self, tier):
        self.q = tier == "quick"
        self.out = []

    def add(self, fn, **kw):
        self.out.append(S(fn, **kw))

    def pick(self, a, b):
        """quick / thorough"""
        return a if self.q else b


# inputs beyond 2^32 bytes, under the contract of the compression loops (huge.py)
G = 1 << 32


def huge(s, p, how, lens, cpu="portable", **kw):
    s.out.append(Scenario("props:huge", cpu=cpu, pfx=p, how=how, lens=lens, **kw))


# ------------------------------------------------------------------ C01, C02: conformance of the serial mode
def conform(s, p):
    B = V[p[0]].block
    q = s.q
    huge(s, p, "oneshot", [[0, G + B + 1]])
    huge(s, p, "hash", [[0, G + B + 1]], key=3)
    for c in CPUS:
        s.add("oneshot", cpu=c, pfx=p, lo=0, hi=(3 if q else 8) * B + 1)
        s.add("oneshot", cpu=c, pfx=p, lo=K - 1, hi=K + 1, pat=K - B)
        s.add("oneshot", cpu=c, pfx=p, lo="g:%d:4:%d:1" % (B, 33 if q else 130))
        for api in ("hash", "state", "job"):
            s.add("params_hash", cpu=c, pfx=p, lo=0, hi=(2 if q else 4) * B + 1, which=ALLK, api=api)
        s.add("incremental", cpu=c, pfx=p, lens=[[0, 2 * B + 1], [0, 2 * B + 1]])
        s.add("incremental", cpu=c, pfx=p, lens=[[0, B], [0, B], [0, B]], which=["key", "last_node", "hash_length"], setlast=2)
        if not q:
            s.add("incremental", cpu=c, pfx=p, lens=[[0, 2 * B], [0, 2 * B], [0, 2 * B]], which=["key"])
            s.add("incremental", cpu=c, pfx=p, lens=[[0, B + 1]] * 4, setlast=1)
            s.add("incremental", cpu=c, pfx=p, lens=[[0, B + 1]] * 4, setlast=4, writer=["write", "write_all", "update", "write"])


def c01(s):
    conform(s, "b_")


def c02(s):
    conform(s, "s_")


# ------------------------------------------------------------------ C03, C04: conformance of the parallel mode
def conform_par(s, p):
    v = V[p[0]]
    B, D = v.block, v.fanout
    q = s.q
    huge(s, p, "oneshot", [[0, G + B + 1]])
    huge(s, p, "hash", [[0, G + B + 1]], key=3)
    for c in CPUS:
        s.add("oneshot", cpu=c, pfx=p, lo=0, hi=(2 if not q else 1) * D * B + B + 1)
        s.add("oneshot", cpu=c, pfx=p, lo=K - 1, hi=K + 1, pat=K - B)
        s.add("oneshot", cpu=c, pfx=p, lo="g:%d:2:%d:1" % (D * B, 12 if q else 34))
        s.add("par_hash", cpu=c, pfx=p, lo=0, hi=s.pick(2 * B + 1, (D + 1) * B), keyed=True)
        s.add("par_hash", cpu=c, pfx=p, lo=D * B - 1, hi=D * B + 1, keyed=True)
        s.add("par_hash", cpu=c, pfx=p, lo=2 * D * B - 1, hi=2 * D * B + 1, keyed=False)
        s.add("par_hash", cpu=c, pfx=p, lo=0, hi=0, keyed=True, api="state", lens=[[0, B + 1], [0, B]])
        s.add("par_hash", cpu=c, pfx=p, lo=0, hi=0, keyed=False, api="state", lens=[[D * B - 1, D * B + 1], [0, B + 1]])
        if not q:
            s.add("par_hash", cpu=c, pfx=p, lo=0, hi=2 * D * B + 1, keyed=False)
            s.add("par_hash", cpu=c, pfx=p, lo=3 * D * B - 1, hi=3 * D * B + B + 1, keyed=True)
            s.add("par_hash", cpu=c, pfx=p, lo=0, hi=0, keyed=True, api="state", lens=[[0, B], [D * B - 1, D * B + 1], [0, B]])
            s.add("par_hash", cpu=c, pfx=p, lo=0, hi=0, keyed=False, api="state", lens=[[0, 2 * B], [0, D * B], [0, B]])


def c03(s):
    conform_par(s, "bp_")


def c04(s):
    conform_par(s, "sp_")


# ------------------------------------------------------------------ C05: incremental = all at once
def c05(s):
    q = s.q
    for p in ("b_", "s_", "bp_", "sp_"):
        B = V[p[0]].block
        huge(s, p, "update", [[0, B], [G - 1, G + B + 1], [0, B + 1]])
        huge(s, p, "write_all", [[0, G + 1]])
        if len(p) == 2:
            huge(s, p, "update", [[0, G + B + 1]] * 2)
            if not q:
                huge(s, p, "update", [[0, G + B + 1]] * 2, key=3)
                huge(s, p, "update", [[0, 1 << 20]] * 3)
        else:
            huge(s, p, "update", [[0, B + 1], [0, G + B + 1]], key=3)
            if not q or p == "bp_":
                huge(s, p, "update", [[0, G + B + 1], [0, B + 1]])
            if not q:
                huge(s, p, "update", [[0, G + B + 1]] * 2)
    for p in ("b_", "s_"):
        B = V[p[0]].block
        for c in CPUS:
            s.add("split", cpu=c, pfx=p, lens=[[0, 2 * B + 1], [0, 2 * B + 1]])
            s.add("split", cpu=c, pfx=p, lens=[[0, B + 1], [0, 2 * B + 1]], which=["key", "salt"])
            s.add("split", cpu=c, pfx=p, lens=[[0, B + 1], [B - 1, B + 1], [0, B + 1]], which=["last_node"])
            s.add("split", cpu=c, pfx=p, lens=[[0, 2], [B - 2, B + 1], [0, B + 1]], which=["key"])
            s.add("split_state", cpu=c, pfx=p, lens=[[0, B], [0, 2 * B + 1]])
            s.add("split", cpu=c, pfx=p, lens=[[0, B + 1], [0, B + 1], [0, B]], writer=["write", "write_all", "write"], each=True)
            s.add("split", cpu=c, pfx=p, lens=[1, "g:%d:3:%d:1" % (B, 20 if q else 66)])
            s.add("split", cpu=c, pfx=p, lens=[1, [K - 1, K + 1]], pat=K - B)
            if not q:
                s.add("split", cpu=c, pfx=p, lens=[[0, 2 * B + 1], [0, 2 * B + 1]], which=["key", "salt"])
                s.add("split", cpu=c, pfx=p, lens=[[0, B + 1]] * 3, which=["key", "last_node"])
                s.add("split", cpu=c, pfx=p, lens=[[0, B + 1]] * 4, which=["key"], each=True)
                s.add("split", cpu=c, pfx=p, lens=[[0, 4 * B + 1], [0, 4 * B + 1]], which=["key"])
                s.add("split", cpu=c, pfx=p, lens=[1] * 3 + [[0, B + 1]] * 2)
    for p in ("bp_", "sp_"):
        v = V[p[0]]
        B, D = v.block, v.fanout
        for c in CPUS:
            s.add("split", cpu=c, pfx=p, lens=[[0, B + 1], [0, B + 1]], which=["key"])
            s.add("split", cpu=c, pfx=p, lens=[[D * B - 1, D * B + 1], [0, 1], [D * B - 1, D * B + 1]])
            s.add("split_state", cpu=c, pfx=p, lens=[[2 * D * B - 1, 2 * D * B + 1], [0, 2]])
            if c == "avx2" or not q:
                s.add("split", cpu=c, pfx=p, lens=["g:%d:0:%d:0" % (B, 2 * D + 1)] * 2)
            else:
                s.add("split", cpu=c, pfx=p, lens=["g:%d:1:2:0" % (D * B), "g:%d:%d:%d:0" % (B, D - 2, D)])
            s.add("split", cpu=c, pfx=p, lens=[1, "g:%d:2:%d:1" % (D * B, 9 if q else 34)])
            s.add("split", cpu=c, pfx=p, lens=[1, [K - 1, K + 1]], pat=K - B)
            s.add("split", cpu=c, pfx=p, lens=[[1, 2], [2 * D * B - 2, 2 * D * B + 1]], writer=["write", "write_all"], which=["key"])
            if not q:
                s.add("split", cpu=c, pfx=p, lens=["g:%d:0:%d:1" % (B, 2 * D + 1)] * 2, which=["key"])
                s.add("split", cpu=c, pfx=p, lens=["g:%d:0:%d:0" % (2 * B, D + 1)] * 3)
                s.add("split", cpu=c, pfx=p, lens=[[0, 2 * D * B + 1], [0, B + 1]])
                s.add("split", cpu=c, pfx=p, lens=[[0, B + 1], [0, 2 * D * B + 1]], which=["key"])
                s.add("split", cpu=c, pfx=p, lens=[[D * B - 1, D * B + 1]] * 3, each=True)


# ------------------------------------------------------------------ C06, C07: the many API
def degree_of(p, c):
    return {("b", "portable"): 1, ("b", "sse4.1"): 2, ("b", "avx2"): 4,
            ("s", "portable"): 1, ("s", "sse4.1"): 4, ("s", "avx2"): 8}[p[0], c]


def mixed(n, B, f, g):
    return [mixed1(f * k + g, B) for k in range(n)]


def mixed1(k, B):
    """fixed lengths for a long list: empty ones, whole blocks, one byte more or less, in no particular order"""
    return (0, 2 * B + 1, B, 1, 3 * B, B + 1, 2 * B - 1, 0, B - 1, 4 * B + 1, 2 * B)[k % 11]


def c06(s):
    q = s.q
    for p in ("b_", "s_"):
        B = V[p[0]].block
        huge(s, p, "update_many", [[0, G + B + 1]] * 2)
        for c in CPUS:
            d = degree_of(p, c)
            sh = "n:0:%d" % (2 * B + 1)
            s.add("update_many", cpu=c, pfx=p, pre=[0, 0], lens=[[0, 2 * B + 1], [0, 2 * B + 1]])
            s.add("update_many", cpu=c, pfx=p, pre=[[0, B], [0, B]], lens=[[0, B + 1], [B, B + 1]])
            s.add("update_many", cpu=c, pfx=p, pre=[[1, B]] + [0] * (2 * d - 1), lens=[[0, 2 * B + 1]] + [2 * B + 1] * (2 * d - 1))
            s.add("update_many", cpu=c, pfx=p, pre=[0] * d, lens=[sh] * d, which=["key"])
            s.add("update_many", cpu=c, pfx=p, pre=[0] * (d + 1), lens=[sh] * (d + 1))
            for n in sorted({2, d - 1, 2 * d - 1, 2 * d, 3 * d + 2, 4 * d + 1}):
                if n > 1:
                    s.add("update_many", cpu=c, pfx=p, pre=[(k * 5) % 4 % 3 * (n - 1) for k in range(n)], lens=mixed(n, B, 7, n), post=1)
                    s.add("update_many", cpu=c, pfx=p, pre=[B * (k % 2) for k in range(n)], lens=mixed(n, B, 4, 0), which=["key"], post=B + 1)
            for n in ({d + 1} if q else {d, d + 1, 2 * d}) - {1, 2}:
                s.add("update_many", cpu=c, pfx=p, pre=[k % 3 % 2 for k in range(n)],
                      lens=["%s:0:%d" % ("xn"[k % 2], 2 * B + 1) for k in range(n)])
            s.add("update_many", cpu=c, pfx=p, pre=["a:0:%d" % B] * d, lens=[sh] * d, post=B)
            s.add("update_many", cpu=c, pfx=p, pre=[0] * d, lens=[2 * B + 1] * (d - 1) + [[0, 3 * B + 1]])
            s.add("update_many", cpu=c, pfx=p, pre=[0] * d, lens=[B * (k % 3 + 1) + k % 2 for k in range(d)],
                  which=[["key"] if k == 0 else ["salt"] if k == 1 else ["last_node"] for k in range(d)], per=True)
            s.add("update_many", cpu=c, pfx=p, pre=[0] * d, lens=["G:%d:3:%d:0" % (B, 10 if q else 66)] * (d - 1) + ["G:%d:3:%d:1" % (B, 10 if q else 66)])
            s.add("update_many", cpu=c, pfx=p, pre=[0] * d, lens=[K + B * k for k in range(d - 1)] + [[K - 1, K + 1]], pat=K - B)
            if not q:
                s.add("update_many", cpu=c, pfx=p, pre=[0, 0, 0], lens=[[0, 2 * B + 1]] * 3)
                s.add("update_many", cpu=c, pfx=p, pre=[0] * (2 * d + 1), lens=[sh] * (2 * d + 1))
                s.add("update_many", cpu=c, pfx=p, pre=[0] * d, lens=["n:0:%d" % (6 * B + 1)] * d)
                s.add("update_many", cpu=c, pfx=p, pre=[[0, B]] * 2 + [1] * d, lens=[[0, B + 1]] * 2 + [B + 1] * d, post=[0, B])


def c07(s):
    q = s.q
    for p in ("b_", "s_"):
        B = V[p[0]].block
        huge(s, p, "hash_many", [[0, G + B + 1]] * 2)
        huge(s, p, "hash_many", [[0, G + B + 1], 1], key=3)
        for c in CPUS:
            d = degree_of(p, c)
            sh = "n:0:%d" % (2 * B + 1)
            s.add("hash_many", cpu=c, pfx=p, lens=[])
            for n in sorted({2, d - 1, 2 * d - 1, 2 * d, 3 * d + 2, 4 * d + 1}):
                if n > 1:
                    s.add("hash_many", cpu=c, pfx=p, lens=mixed(n, B, 7, n))
                    s.add("hash_many", cpu=c, pfx=p, lens=mixed(n, B, 4, 0), which=["key"])
            for n in ({d + 1} if q else {d, d + 1, 2 * d}) - {1, 2}:
                s.add("hash_many", cpu=c, pfx=p, lens=["%s:0:%d" % ("xn"[k % 2], 2 * B + 1) for k in range(n)])
            s.add("hash_many", cpu=c, pfx=p, lens=[[0, 2 * B + 1]] * 2, which=["key"], rerun=1)
            s.add("hash_many", cpu=c, pfx=p, lens=[sh] * d, which=["key"], clone=True, rerun=2 if d > 1 else 1)
            s.add("hash_many", cpu=c, pfx=p, lens=[sh] * (d + 1))
            s.add("hash_many", cpu=c, pfx=p, lens=[[0, 3 * B + 1]] + [2 * B] * (d - 1))
            s.add("hash_many", cpu=c, pfx=p, lens=[[0, B + 1], 0] + [2 * B + 1] * d)
            s.add("hash_many", cpu=c, pfx=p, lens=["n:0:%d" % (B + 1)] * d, per_job=True,
                  which=[["salt", "last_node"] if k == 0 else ["key"] if k == 1 else ["hash_length"] if k == 2 else [] for k in range(d)])
            s.add("hash_many", cpu=c, pfx=p, lens=["G:%d:3:%d:0" % (B, 10 if q else 66)] * (d - 1) + ["G:%d:3:%d:1" % (B, 10 if q else 66)])
            s.add("hash_many", cpu=c, pfx=p, lens=[K + B * k for k in range(d - 1)] + [[K - 1, K + 1]], pat=K - B)
            if not q:
                s.add("hash_many", cpu=c, pfx=p, lens=[[0, 2 * B + 1]] * 3)
                s.add("hash_many", cpu=c, pfx=p, lens=[sh] * (2 * d + 1), which=["key"])
                s.add("hash_many", cpu=c, pfx=p, lens=["n:0:%d" % (6 * B + 1)] * d)
                s.add("hash_many", cpu=c, pfx=p, lens=["n:0:%d" % (2 * B + 1)] * d, per_job=True,
                      which=[ALLK if k < 2 else ["last_node"] for k in range(d)])
                s.add("hash_many", cpu=c, pfx=p, lens=["n:0:%d" % (B + 1)] * d, per_job=True,
                      which=[ALLP if k == 0 else ["key"] if k == 1 else ["hash_length"] for k in range(d)])
                s.add("hash_many", cpu=c, pfx=p, lens=[(k * 37) % (3 * B) for k in range(2 * d - 1)] + [[0, 3 * B]])


# ------------------------------------------------------------------ C08: every CPU and build configuration
def c08(s):
    q = s.q
    for p in ("b_", "s_"):
        v = V[p[0]]
        B, D = v.block, v.fanout
        combos = [(c, "rel") for c in ODD] + [("portable", "nostd"), ("sse4.1", "nostd41"), ("avx2", "nostdavx2"),
                                              ("avx2", "nostd"), ("avx2", "nostd41"), ("avx-without-avx2", "nostdavx"), ("avx2", "stdavx2")]
        if p[0] == "b":
            combos += [("portable", "uninline"), ("avx2", "uninline")]
        for c, cfg in combos:
            s.add("degree", cpu=c, cfg=cfg, pfx=p)
            s.add("oneshot", cpu=c, cfg=cfg, pfx=p, lo=0, hi=(2 if q else 4) * B + 1)
            s.add("hash_many", cpu=c, cfg=cfg, pfx=p, lens=["n:0:%d" % (B + 1)] * (D + 1), spec=True)
            s.add("incremental", cpu=c, cfg=cfg, pfx=p, lens=[[0, B + 1], [0, B + 1]], which=["key"])
            s.add("oneshot", cpu=c, cfg=cfg, pfx=p, lo="g:%d:4:%d:1" % (B, 12 if q else 40))
            s.add("hash_many", cpu=c, cfg=cfg, pfx=p, lens=["G:%d:3:%d:0" % (B, 6 if q else 20)] * (D + 1), spec=True)
            s.add("par_hash", cpu=c, cfg=cfg, pfx=p[0] + "p_", lo=D * B - 1, hi=D * B + 1, keyed=True)
            if not q:
                s.add("oneshot", cpu=c, cfg=cfg, pfx=p[0] + "p_", lo=0, hi=(D + 1) * B + 1)
                s.add("params_hash", cpu=c, cfg=cfg, pfx=p, lo=0, hi=2 * B + 1, which=ALLK)
        for c in CPUS:
            s.add("degree", cpu=c, pfx=p)
            s.add("hash_many", cpu=c, pfx=p, lens=["n:0:%d" % (2 * B + 1)] * (D + 1), spec=True)
            s.add("forced", cpu=c, pfx=p, lens=["G:%d:3:%d:1" % (B, 10 if q else 66)])
            s.add("forced", cpu=c, pfx=p, lens=["n:0:%d" % (2 * B + 1)] * 2, which=["key"])
            s.add("forced", cpu=c, pfx=p[0] + "p_", lens=[[D * B - 1, D * B + 1]], which=["key"])


# ------------------------------------------------------------------ C09: parameters
def c09(s):
    q = s.q
    for p in ("b_", "s_", "bp_", "sp_"):
        v = V[p[0]]
        par = p[1] == "p"
        B = v.block
        for cfg in ("rel", "chk"):
            for k in ("hash_length", "inner_hash_length", "node_offset"):
                if par and k != "hash_length":
                    continue
                s.add("setter_range", cpu="portable", cfg=cfg, pfx=p, setter=k)
            for k in ("key", "salt", "personal"):
                if par and k != "key":
                    continue
                s.add("setter_range", cpu="portable", cfg=cfg, pfx=p, setter=k, hi=1 << 40)
        names = ["hash_length", "key"] if par else ALLK
        for k in names:
            for c in (CPUS if not q else ("portable",)):
                s.add("setter_override", cpu=c, pfx=p, k=k, lo=0, hi=s.pick(1, B + 1))
        for c in CPUS:
            s.add("setter_order", cpu=c, pfx=p, which=names)
            s.add("defaults", cpu=c, pfx=p, lo=0, hi=B + 1)
        if not par:
            s.add("params_hash", cpu="portable", pfx=p, lo=0, hi=1, which=list(reversed(ALLK)))


# ------------------------------------------------------------------ C10: count
def c10(s):
    q = s.q
    for p in ("b_", "s_", "bp_", "sp_"):
        B = V[p[0]].block
        huge(s, p, "update", [1, [G - 1, G + 1], [0, 1]], key=3)
        huge(s, p, "update", [[0, G + B + 1]] * 2, digest=False)
        if not q:
            huge(s, p, "update", [[0, G + B + 1]] * 3, digest=False)
        if len(p) == 2:
            huge(s, p, "update", [[0, 1], [G - 1, G + 1]], cpu="avx2")
            huge(s, p, "update_many", [[G - 1, G + 1], [0, 1]])
    for p in ("b_", "s_"):
        B = V[p[0]].block
        for c in CPUS:
            s.add("counting", cpu=c, pfx=p, lens=[[0, B + 1]] * 3, which=["key"])
            s.add("counting", cpu=c, pfx=p, lens=[[0, B + 1]] * 2, which=["key"], clone="finalize")
            s.add("counting", cpu=c, pfx=p, lens=[[0, (3 if q else 10) * B + 1]] * 2)
            s.add("counting", cpu=c, pfx=p, lens=[[0, (12 if q else 60) * B + 1]], which=["key"])
            if not q:
                s.add("counting", cpu=c, pfx=p, lens=[[0, 2 * B + 1]] * 3, which=["key"], clone="finalize")
            s.add("counting", cpu=c, pfx=p, lens=[1, [K - 1, K + 1]], pat=K - B)
            d = degree_of(p, c)
            s.add("count_many", cpu=c, pfx=p, lens=[[0, 2 * B + 1]] * 2, which=["key"])
            s.add("count_many", cpu=c, pfx=p, lens=["n:0:%d" % (3 * B)] * (d + 1))
            s.add("count_many", cpu=c, pfx=p, lens=[[0, 3 * B]] + [2 * B + 1] * (d - 1))
    for p in ("bp_", "sp_"):
        v = V[p[0]]
        B, D = v.block, v.fanout
        for c in CPUS:
            s.add("counting", cpu=c, pfx=p, lens=[[0, B + 1], [0, B + 1]], which=["key"], clone="clone" if q else "finalize")
            s.add("counting", cpu=c, pfx=p, lens=[[D * B - 1, D * B + 1], [0, 1], [D * B - 1, D * B + 1], [0, 2]])
            s.add("counting", cpu=c, pfx=p, lens=[[0, 2 * D * B + 1]], which=["key"])
            s.add("counting", cpu=c, pfx=p, lens=[1, [K - 1, K + 1]], pat=K - B)
            if not q:
                s.add("counting", cpu=c, pfx=p, lens=[[0, 2 * D * B + 1], [0, B + 1]])


# ------------------------------------------------------------------ C11: the Hash value
def c11(s):
    for p in ("b_", "s_"):
        v = V[p[0]]
        for cfg in ("rel", "chk"):
            s.add("hash_bytes", cpu="portable", cfg=cfg, pfx=p)
            s.add("hash_bytes", cpu="portable", cfg=cfg, pfx=p, ref=True)
            s.add("hash_cmp", cpu="portable", cfg=cfg, pfx=p)
            s.add("hash_cmp_slice", cpu="portable", cfg=cfg, pfx=p, hi=2 * v.out + 1)
            s.add("hash_cmp_slice", cpu="portable", cfg=cfg, pfx=p, hi=1 << 40)
            s.add("to_hex", cpu="portable", cfg=cfg, pfx=p)
            s.add("to_hex", cpu="portable", cfg=cfg, pfx=p, debug=True)
            s.add("hash_views", cpu="portable", cfg=cfg, pfx=p)
            s.add("hash_views", cpu="portable", cfg=cfg, pfx=p, which=["hash_length", "key"], n=1)
            s.add("hash_views", cpu="portable", cfg=cfg, pfx=p[0] + "p_", which=["hash_length"], n=1)
        s.add("hash_cmp_len", cpu="portable", pfx=p)
        hs = range(1, v.out + 1) if not s.q else (1, 2, 3, v.out // 2 - 1, v.out // 2, v.out - 1)
        for h in hs:
            s.add("to_hex", cpu="portable", pfx=p, hl=h)
            s.add("to_hex", cpu="portable", pfx=p, hl=h, debug=True)


# ------------------------------------------------------------------ C12: memory safety, no panics
def c12(s):
    q = s.q
    for p in ("b_", "s_"):
        v = V[p[0]]
        B, D = v.block, v.fanout
        P = p[0] + "p_"
        for x in (p, P):
            huge(s, x, "oneshot", [[0, G + B + 1]], cfg="chk", digest=False)
            huge(s, x, "hash", [[0, G + B + 1]], cfg="chk", key=3, digest=False)
            huge(s, x, "update", [[0, G + B + 1], [0, 3]], cfg="chk", digest=False)
            huge(s, x, "update", [[0, B + 1], [0, G + B + 1]], cfg="chk", key=3, digest=False)
        huge(s, p, "update_many", [[0, G + B + 1]] * 2, cfg="chk", digest=False)
        huge(s, p, "hash_many", [[0, G + B + 1]] * 2, cfg="chk", digest=False)
        for cfg in ["chk"] if q else ["chk", "rel"]:
            for c in CPUS:
                d = degree_of(p, c)
                R = lambda **kw: s.add("robust", cpu=c, cfg=cfg, **kw)
                R(pfx=p, what="hash", lens=[[0, 3 * B + 1]], which=ALLK)
                R(pfx=p, what="state", lens=[[0, B + 1], [0, 2 * B + 1]], which=["key"])
                R(pfx=p, what="state", lens=[[0, B + 1], [B - 1, B + 1], [0, B + 1]])
                R(pfx=p, what="write", lens=[[0, B + 1], [0, B + 1]], which=["key"])
                R(pfx=p, what="hash_many", lens=[[0, 2 * B + 1], [0, B + 1]], which=["key"])
                R(pfx=p, what="hash_many", lens=["n:0:%d" % (2 * B + 1)] * (2 * d + 1))
                R(pfx=p, what="update_many", lens=[[0, 2 * B + 1], [0, B + 1]], pre=[0, 2], which=["key"])
                R(pfx=p, what="update_many", lens=["n:0:%d" % (2 * B + 1)] * (2 * d + 1), pre=3)
                R(pfx=P, what="hash", lens=[[0, 2 * B + 1]], which=["key", "hash_length"])
                R(pfx=P, what="hash", lens=[[2 * D * B - 1, 2 * D * B + B + 1]], which=["hash_length"])
                R(pfx=p, what="hash", lens=["g:%d:3:%d:1" % (B, 20 if q else 66)])
                R(pfx=P, what="hash", lens=["g:%d:2:%d:1" % (D * B, 9 if q else 34)])
                R(pfx=p, what="hash_many", lens=["G:%d:3:%d:0" % (B, 10 if q else 66)] * (d + 1))
                R(pfx=P, what="state", lens=[[0, 2], [2 * D * B - 1, 2 * D * B + 1]], which=["key"])
                R(pfx=P, what="state", lens=[[D * B - 1, D * B + 1], [0, 2], [0, B]])
                if not q:
                    R(pfx=p, what="hash", lens=[[0, 8 * B + 1]], which=ALLK)
                    R(pfx=p, what="state", lens=[[0, 2 * B + 1]] * 3, which=["key"])
                    R(pfx=p, what="write", lens=[[0, B + 1]] * 3, which=["key"])
                    R(pfx=p, what="hash_many", lens=[[0, 2 * B + 1]] * 3, which=["key"])
                    R(pfx=p, what="hash_many", lens=["n:0:%d" % (4 * B + 1)] * (2 * d + 1))
                    R(pfx=p, what="update_many", lens=[[0, 2 * B + 1]] * 2, pre=[0, B], which=["key"])
                    R(pfx=P, what="hash", lens=[[0, 2 * D * B + 1]], which=["key", "hash_length"])
                    R(pfx=P, what="state", lens=[[0, B + 1], [D * B - 1, 2 * D * B + 1]], which=["key"])
                    R(pfx=P, what="state", lens=[[D * B - 1, D * B + 1], [0, B], [0, B]])
        if p[0] == "b":
            for c in CPUS:
                R = lambda **kw: s.add("robust", cpu=c, cfg="uninline", **kw)
                R(pfx=p, what="state", lens=[[0, B + 1], [0, 2 * B + 1]], which=["key"])
                R(pfx=p, what="hash", lens=[[0, 3 * B + 1]], which=ALLK)


# ------------------------------------------------------------------ C13: Debug output
def c13(s):
    q = s.q
    for p in ("b_", "s_", "bp_", "sp_"):
        v = V[p[0]]
        B, D = v.block, v.fanout
        par = p[1] == "p"
        for alt in (0, 1):
            s.add("secrecy", cpu="portable", pfx=p, what="params", n=0, keyn=[0, v.key], alt=alt)
            s.add("secrecy", cpu="portable", pfx=p, what="state", n=[0, B + 1 if q else 2 * B + 1], keyn=v.key, alt=alt)
            s.add("secrecy", cpu="portable", pfx=p, what="state", n=s.pick(3, [0, B + 1]), keyn=[0, v.key], alt=alt)
            if not par:
                s.add("secrecy", cpu="portable", pfx=p, what="job", n=[0, B + 1 if q else 2 * B + 1], keyn=v.key, alt=alt)
                s.add("secrecy", cpu="portable", pfx=p, what="job", n=3, keyn=[0, v.key], alt=alt)
        for c in CPUS:
            s.add("secrecy", cpu=c, pfx=p, what="state", n=2 * B if not par else D * B + 1, keyn=[1, 3], alt=0, post=B)


# ------------------------------------------------------------------ C14: large counters
def c14(s):
    q = s.q
    for p in ("b_", "s_", "bp_", "sp_"):
        B = V[p[0]].block
        huge(s, p, "update", [[0, B], [G - 1, G + 1], [0, 1]])
        if len(p) == 2:
            huge(s, p, "update", [[0, B], [G - 1, G + 1], [0, 1]], cpu="avx2")
            huge(s, p, "update_many", [[G - 1, G + B + 1], [0, 1]])
    for p in ("b_", "s_"):
        v = V[p[0]]
        B, D = v.block, v.fanout
        for c in CPUS:
            d = degree_of(p, c)
            s.add("counter", cpu=c, pfx=p, mode="update", lens=[[0, 2 * B + 1]], which=["last_node"])
            s.add("counter", cpu=c, pfx=p, mode="many", lens=["n:0:%d" % (2 * B + 1)] * d, lanes=d)
            s.add("counter", cpu=c, pfx=p, mode="many", lens=[[0, B + 1]] * 2, lanes=2)
            s.add("counter", cpu=c, pfx=p, mode="update", pre=[0, B], lens=[[0, B + 1]], post=[0, 1])
            s.add("counter", cpu=c, pfx=p, mode="update", pre=[1, B], lens=[[B, 2 * B + 1]])
            s.add("counter", cpu=c, pfx=p, mode="many", pre=[0, B], lens=[[0, B + 1]] * 2, lanes=2)
            s.add("counter", cpu=c, pfx=p, mode="many", pre=B, lens=["n:0:%d" % (B + 1)] * d, lanes=d, post=1)
            s.add("counter", cpu=c, pfx=p[0] + "p_", mode="update", lens=[[0, 1]])
            s.add("counter", cpu=c, pfx=p[0] + "p_", mode="update", pre=[D * B - 1, D * B + 1], lens=[[D * B - 1, D * B + 1]])
            s.add("counter", cpu=c, pfx=p[0] + "p_", mode="update", pre=2 * D * B, lens=[[0, 2]], post=1)
            s.add("counter", cpu=c, pfx=p[0] + "p_", mode="update", lens=[[2 * D * B - 1, 2 * D * B + 1]])
            if not q:
                s.add("counter", cpu=c, pfx=p, mode="update", lens=[[0, 5 * B + 1]])
                s.add("counter", cpu=c, pfx=p, mode="many", lens=["n:0:%d" % (2 * B + 1)] * (2 * d + 1), lanes=2 * d + 1)
                s.add("counter", cpu=c, pfx=p, mode="many", lens=[[0, B + 1]] * 3, lanes=3)
                s.add("counter", cpu=c, pfx=p[0] + "p_", mode="update", lens=[[0, B + 1]])
                s.add("counter", cpu=c, pfx=p[0] + "p_", mode="update", lens=[[3 * D * B - 1, 3 * D * B + 1]])


# ------------------------------------------------------------------ C15: timing
def c15(s):
    q = s.q
    for p in ("b_", "s_"):
        v = V[p[0]]
        B, D = v.block, v.fanout
        for c in CPUS:
            d = degree_of(p, c)
            s.add("constant_time", cpu=c, pfx=p, what="hash", n=[0, (2 if q else 6) * B + 1], keyn=[0, v.key])
            s.add("constant_time", cpu=c, pfx=p, what="state", lens=[[0, B + 1], [0, 2 * B + 1]], keyn=[0, v.key])
            s.add("constant_time", cpu=c, pfx=p, what="many", lens=[[0, 2 * B + 1]] * 2, keyn=[0, 5])
            s.add("constant_time", cpu=c, pfx=p, what="many", lens=["n:0:%d" % (2 * B + 1)] * (d + 1))
            s.add("constant_time", cpu=c, pfx=p, what="update_many", lens=[[0, 2 * B + 1]] * 2, keyn=[0, 5])
            s.add("constant_time", cpu=c, pfx=p, what="update_many", lens=["n:0:%d" % (2 * B + 1)] * (d + 1))
            s.add("constant_time", cpu=c, pfx=p[0] + "p_", what="hash", n=[0, B + 1], keyn=[0, 3])
            s.add("constant_time", cpu=c, pfx=p[0] + "p_", what="hash", n=[2 * D * B - 1, 2 * D * B + 2], keyn=3)
            s.add("constant_time", cpu=c, pfx=p[0] + "p_", what="state", lens=[[0, 3], [D * B - 1, 2 * D * B]], keyn=3)
            if not q:
                s.add("constant_time", cpu=c, pfx=p, what="state", lens=[[0, B + 1]] * 3, keyn=[0, v.key])
                s.add("constant_time", cpu=c, pfx=p, what="many", lens=[[0, 2 * B + 1]] * 3, keyn=[0, 5])
                s.add("constant_time", cpu=c, pfx=p[0] + "p_", what="hash", n=[0, 2 * D * B + 1])
        for cfg in ("rel", "chk"):
            s.add("constant_time", cpu="portable", cfg=cfg, pfx=p, what="eq")
            for n in (0, v.out - 1, v.out):
                s.add("constant_time", cpu="portable", cfg=cfg, pfx=p, what="eq_slice", n=n)
            for n in (1, v.out // 2) if q else range(1, v.out):
                s.add("constant_time", cpu="portable", cfg=cfg, pfx=p, what="eq_short", n=n)


# ------------------------------------------------------------------ C16: purity
def c16(s):
    q = s.q
    for p in ("b_", "s_"):
        B = V[p[0]].block
        for c in CPUS:
            for o in (0, 1):
                s.add("pure", cpu=c, pfx=p, lens=[[0, B + 1], [0, B + 1]], which=["key"], order=o)
                if not q:
                    s.add("pure", cpu=c, pfx=p, lens=[[0, 2 * B + 1], [0, 2 * B + 1]], which=ALLK, order=o)
            s.add("params_reuse", cpu=c, pfx=p, lens=[0, s.pick(1, B + 1)], which=["key", "salt", "hash_length"], change=["key", "personal", "hash_length"])
            s.add("params_reuse", cpu=c, pfx=p, lens=[0, B + 1], which=["key"], change=["key"])
    for p in ("bp_", "sp_"):
        v = V[p[0]]
        B, D = v.block, v.fanout
        for c in CPUS:
            s.add("pure", cpu=c, pfx=p, lens=[[D * B - 1, D * B + 1], [0, 1]], which=["key"], order=0)
            s.add("pure", cpu=c, pfx=p, lens=[[0, B], [D * B, D * B + 1]], order=1)
            s.add("pure", cpu=c, pfx=p, lens=[[0, B], [0, B]], which=["key"], order=0)
            s.add("params_reuse", cpu=c, pfx=p, lens=[0, B + 1], which=["key"], change=["key", "hash_length"])


# ------------------------------------------------------------------ C17: the command line tool
def c17(s):
    q = s.q

    def add(fn, **kw):
        s.out.append(Scenario("cliprops:" + fn, cfg="cli", **kw))
    for mode in ("b", "bp", "s", "sp"):
        v = V[mode[0]]
        B, D = v.block, v.fanout
        par = len(mode) == 2
        O = lambda *o, **kw: add("cli_options", mode=mode, opts=[list(x) for x in o], **kw)
        I = lambda **kw: add("cli_input", mode=mode, **kw)
        F = lambda **kw: add("cli_files", mode=mode, **kw)
        # how the mode is named
        for fl in {"b": (["-b"],), "bp": (["-b", "-p"], ["-pb"]), "s": (["-s"],), "sp": (["-s", "-p"], ["-ps"])}[mode]:
            add("cli_options", mode=mode, opts=[], flags=fl, hi=1 if q and par else B + 1, stdin=False)
        if mode == "b":
            for fl in (["-b", "-s"], ["-bsp"], ["-s", "-b", "-p"]):
                add("cli_conflict", flags=fl)
        # input: how it is read
        I(lens=[0, B + 1 if q and par else 2 * B + 1])
        I(lens=[0, 2], nreads=2 if q and par else 3)
        I(lens=[0, 2], nreads=2, stdin=True)
        I(lens=[32767, 32769], pat=32704, stdin=par)
        I(lens=[0, B + 1 if q and par else 2 * B + 1], mmap=True)
        I(lens=[65535, 65537], pat=65472, mmap=True)
        I(lens=[65535, 65537], pat=65472, stdin=par)
        I(lens=[0, 3], mmap=True, stdin=True)
        if not q:
            I(lens=[4095, 4097], pat=4032, mmap=True)
            I(lens=[65535, 65537], pat=65472, stdin=not par)
            for st in (False, True):
                I(lens=[0, 3], nreads=4, stdin=st)
                I(lens=[0, 8], nreads=3, stdin=st)
                I(lens=[B, B + 1], nreads=1, stdin=st)
                I(lens=[2 * B - 1, 2 * B + 1], nreads=1, stdin=st)
                I(lens=[0, 2 * B + 1], nreads=2, stdin=st)
                I(lens=[32767, 32769], pat=32704, nreads=1, stdin=st)
        F(lens=[[0, 2], [0, 2]])
        F(lens=[[0, 1], [0, 1], [0, 1]]) if mode == "b" or not q else None
        F(lens=[[1, 2], [1, 2]], mmap=True)
        F(lens=[[0, 1], [0, 1]], nreads=2) if mode == "s" or not q else None
        F(lens=[[0, 2]])
        if not q:
            F(lens=[[0, B + 1], 3])
            F(lens=[[0, 2], [0, 2]], nreads=3)
            F(lens=[[0, 2], [0, 2], [0, 2]])
        # options
        O(["length", "num", str(v.out // 10) if q and par else "", 1 if q and par else 2], hi=0 if q else 3)
        O(["length", "num", "0", 1], hi=0) if q and par else None
        O(["length", "num", "1844674407370955161", 1], hi=0)
        O(["length", "num", "", 3], hi=0) if not q else None
        hi = 0 if q and par else 1
        O(["key", "any", "", 2], hi=hi)
        O(["key", "hex", "", 4 if not q else 2], hi=hi)
        O(["key", "hex", "0", 0], hi=1)
        O(["key", "hex", "", 0], hi=1)
        for k in (v.key - 1, v.key):
            O(["key", "hex", "a7" * k, 2], hi=hi)
        for name in ("salt", "personal"):
            O([name, "hex", "", 2], hi=1)
            if q and par:
                continue
            for k in (v.salt - 1, v.salt):
                O([name, "hex", "5C" * k, 2], hi=1)
            O([name, "any", "12", 2], hi=0 if q else 1)
        for name in ("fanout", "max-depth", "node-depth"):
            O([name, "num", "", 3 if not q else 2], hi=1)
            O([name, "num", "25", 1], hi=1)
        O(["inner-hash-length", "num", "", 2], hi=1)
        O(["max-leaf-length", "num", "", 3], hi=1)
        O(["max-leaf-length", "num", "429496729", 1], hi=1)
        O(["node-offset", "num", "", 3], hi=1)
        O(["node-offset", "num", "28147497671065", 1], hi=1)
        O(["node-offset", "num", "1844674407370955161", 1], hi=1)
        O(["last-node"], hi=1 if q else B + 1)
        O(["last-node"], ["length", "num", "1", 1], ["key", "hex", "c0ffee", 1], hi=1)
        O(["key", "hex", "c0ffee0a", 0], ["length", "num", "1", 1], hi=1 if q and not par else 0 if q else B + 1)
        # every option at once, in two orders
        allo = [["length", "num", "1", 1], ["key", "hex", "62", 0], ["salt", "hex", "62" * (v.salt - 1) + "7", 1],
                ["personal", "hex", "7" * (2 * v.salt), 0], ["fanout", "num", "2", 1], ["max-depth", "num", "", 1],
                ["max-leaf-length", "num", "6743808", 1], ["node-offset", "num", "5790050696" if v.w == 64 else "88349162240", 1],
                ["node-depth", "num", "1", 1], ["inner-hash-length", "num", "1", 1], ["last-node"]]
        if not par:
            O(*allo, hi=1) if mode == "s" or not q else None
            O(*reversed(allo), hi=1, stdin=False) if mode == "b" or not q else None
            if not q:
                O(*allo[1:5], lo=B - 1, hi=B + 1, stdin=False)


SUITES = {k: v for k, v in list(globals().items()) if k[0] == "c" and k[1:].isdigit()}

COMMON = [
    "the analysed program is the optimised LLVM IR that rustc emits for the C-ABI harness crate linked (fat LTO) with /repo's crates, loop and SLP vectorisation passes off; the step from that IR to machine code is not analysed (one model per scenario is run natively as a check)",
    "x86-64; CPU features are those of the named profile, answered by a model of CPUID/XGETBV",
    "the engine (IR parser, symbolic executor, term rewriting) is trusted; the rewriting is the front end of the SMT queries and is validated by the native runs",
    "memory: every object is separate, allocation never fails (the library does not allocate)",
    "reference model: RFC 7693 / the BLAKE2 paper, written from the specification and checked against hashlib in every run",
]

OUT = ("lengths, list sizes and call sequences beyond the bounds (the loops repeat per block and per list entry); "
       "non-x86 targets; the machine code generator; allocation failure")
_B = "B = block length (128 / 64), D = leaves (4 / 8), d = SIMD degree of the CPU profile; "
_L = "; long inputs of 65535..65537 bytes and some blocks more, last block symbolic"
INFO = {
    "C01": dict(bounds=_B + "one-shot 0..3B+1 bytes (thorough 0..8B+1); all parameters at once with all values, key 0..64, 0..2B+1 bytes (thorough 4B+1) through hash/State/job; two pieces of 0..2B+1, three of 0..B with key (thorough also four pieces); 3 CPU profiles" + _L),
    "C02": dict(bounds=_B + "as C01 for BLAKE2s (node_offset any 48-bit value)" + _L),
    "C03": dict(bounds=_B + "one-shot 0..DB+B+1 (thorough 2DB+B+1); keyed with all digest lengths 0..2B+1, and DB-1..DB+1 (thorough 0..(D+1)B); unkeyed 2DB-1..2DB+1; incremental [0,B+1]+[0,B] keyed, [DB-1,DB+1]+[0,B+1]; 3 CPU profiles" + _L),
    "C04": dict(bounds=_B + "as C03 for BLAKE2sp" + _L),
    "C05": dict(bounds=_B + "two pieces of 0..2B+1, three of 0..B+1, with key/salt/last-node; Write in three pieces; parallel modes: all pairs of multiples of B up to (2D+1)B and symbolic ranges around B, DB, 2DB; 3 CPU profiles" + _L),
    "C06": dict(bounds=_B + "2 states with independent lengths 0..2B+1; d, d+1 and 2d states with shared, two alternating or fixed lengths, lists of 2..4d+1 with mixed fixed lengths, keyed or not; 0..B bytes buffered before; a further update after; different parameters per state" + _L),
    "C07": dict(bounds=_B + "0, 2, d, d+1, d+2 jobs; independent lengths 0..2B+1 for 2 jobs, one shared or two alternating lengths 0..2B+1 for more; 2..4d+1 jobs of mixed fixed lengths, keyed or not; keys; different parameters per job; copies; rerun of all or of a suffix" + _L),
    "C08": dict(bounds=_B + "CPU profiles portable, SSSE3-only, SSE4.1, AVX without AVX2, AVX2 without OS support, AVX2; builds std, std with +avx2, no-std, no-std with +sse4.1 / +avx / +avx2, uninline_portable, overflow-checked (the last in C12); one-shot 0..2B+1, D+1 jobs of 0..B+1 (std build 0..2B+1), two keyed pieces of 0..B+1, parallel mode around DB"),
    "C09": dict(bounds="all 64-bit arguments, key/salt/personal lengths up to 2^40; override for every setter, both values symbolic; all setters in one order against the reverse order; message 0..1 bytes (thorough 0..B+1)"),
    "C10": dict(bounds=_B + "three pieces of 0..B+1 keyed, two of 0..3B+1, one of 0..12B+1 (thorough up to 60B+1); many-state with 2, d and d+1 states; parallel modes around B, DB, 2DB" + _L),
    "C11": dict(bounds="all digest contents; every digest length for views and comparison; hex form for selected lengths (thorough: every length); comparand lengths 0..2^40"),
    "C12": dict(bounds=_B + "one-shot 0..3B+1 with all parameters; pieces of 0..B+1 and 0..2B+1; Write; lists of 2 with independent lengths and of 2d+1 with a shared length 0..2B+1; parallel modes to 2DB+B+1; overflow-checked, uninline and (thorough) plain release builds"),
    "C13": dict(bounds=_B + "message lengths 0..B+1, key lengths 0..max, plain and alternate Debug; State after further updates"),
    "C14": dict(bounds=_B + "every counter value k*B in [0, 2^128) / [0, 2^64) per state; 0..2B+1 further bytes after 0..B buffered ones; 2 and d states at once with independent counters; parallel modes around DB, 2DB"),
    "C15": dict(bounds=_B + "message lengths 0..2B+1, key lengths 0..max; pairs of independent and d+1 shared lengths for lists; parallel modes around B, DB, 2DB; comparisons of all lengths",
                assumptions=["instructions take time independent of their operands' values; a select in the IR becomes a conditional move"]),
    "C17": dict(bounds=_B + "the whole program from main() on, AVX2 profile; option values of 0-3 symbolic characters after fixed prefixes around every limit (decimal and hexadecimal digits, signs, malformed characters), unsupported and conflicting options, all options at once; inputs of 0..2B+1 bytes (serial) or 0..B+1 (parallel), around 32768 and 65536, also with --mmap; up to 3 reads of inputs up to 2 bytes, each complete, short by any amount, interrupted or failing; up to 3 files, each readable, missing, a directory or failing to read (thorough: longer inputs under read schedules, 4 reads, more option characters)",
                assumptions=["the C library and kernel are a model: open/read/fstat/mmap/write with files of symbolic contents and sizes, start-up calls answer success, the file does not change while it is read, writing to standard output succeeds",
                             "built with panic=abort and one codegen unit; a panic counts as a failing exit"]),
    "C16": dict(bounds=_B + "update/finalize/clone sequences with two pieces of 0..B+1, keyed; parallel modes with pieces around B and DB; Params cloned and changed after use"),
}
# the scenarios of huge()
HUGE = ("; every length 0..2^32+B+1, one-shot and in one or two pieces (tree modes: two pieces of which one has 0..B+1): bytes, block counters, lengths and "
        "final flags passed to the serial compression loop, and count(), with the loop itself replaced by its contract (portable profile)")
# whole numbers of blocks, with or without one more byte
for k, t in dict(C01="4..33 (thorough 130) blocks one-shot", C02="4..33 (thorough 130) blocks one-shot",
                 C03="2..12 (thorough 34) multiples of DB one-shot", C04="2..12 (thorough 34) multiples of DB one-shot",
                 C05="1 + 3..20 blocks (parallel 2..9 multiples of DB; thorough 66, 34)", C06="d states with 3..10 blocks each (thorough 66)",
                 C07="d jobs of 3..10 blocks each (thorough 66)", C08="4..12 blocks one-shot, D+1 jobs of 3..6 blocks in every build (thorough 40, 20)",
                 C12="3..20 blocks, 2..9 multiples of DB, d+1 jobs of 3..10 blocks (thorough 66, 34, 66)").items():
    INFO[k]["bounds"] += "; every number of blocks (+ 0 or 1 byte) in " + t
for k in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C12", "C14"):
    INFO[k]["bounds"] += HUGE
    INFO[k]["assumptions"] = INFO[k].get("assumptions", []) + [
        "beyond the lengths that are executed in full: the contract of the compression loop, which C14 and the other scenarios decide for a few blocks "
        "from any counter; a counterexample there is reported only if the real code, run natively on that many bytes, shows it"]
for i in INFO.values():
    i.setdefault("outside", OUT)


def suite(pid, tier):
    s = Suite(tier)
    SUITES[pid.lower()](s)
    i = INFO.get(pid, {})
    return dict(level="model_checking", scenarios=s.out, bounds=i.get("bounds", ""), outside=i.get("outside", ""),
                assumptions=COMMON + i.get("assumptions", []))
