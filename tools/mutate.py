"""Mutation campaign: which small edits of the sources survive the repository's own tests, and do the checks see them?

  mutate.py gen N SEED FILE...      writes /tmp/mut/list.json: N random mutants of the files
  mutate.py test K OF               (worker K of OF) builds and tests its share in a private copy bound over /repo
  mutate.py check K OF [pid..]      runs the checks on the survivors until one reports a violation
Results are appended to /tmp/mut/{test,check}.K.jsonl.  Development aid; no registered command uses it.
"""
import json, os, random, re, subprocess, sys

D = "/tmp/mut"
SWAPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" + ", " - "), (" - ", " + "),
         (" && ", " || "), (" || ", " && "), ("if !", "if "), ("Finalize::Yes", "Finalize::No"), ("Finalize::No", "Finalize::Yes"),
         ("LastNode::Yes", "LastNode::No"), ("LastNode::No", "LastNode::Yes"), ("Stride::Serial", "Stride::Parallel"),
         ("Stride::Parallel", "Stride::Serial"), ("min(", "max("), ("true", "false"), ("false", "true"), ("unpacklo", "unpackhi"),
         ("unpackhi", "unpacklo"), ("BLOCKBYTES", "(BLOCKBYTES - 1)"), ("BLOCKBYTES", "(BLOCKBYTES / 2)"), ("BLOCKBYTES", "(BLOCKBYTES + 1)"),
         ("OUTBYTES", "(OUTBYTES - 1)"), ("DEGREE", "(DEGREE - 1)"), ("DEGREE", "(DEGREE / 2)"), ("KEYBYTES", "(KEYBYTES - 1)"),
         ("SALTBYTES", "(SALTBYTES - 1)"), ("wrapping_add", "saturating_add"), ("count_low", "count_high"), ("count_high", "count_low"),
         ("is_empty()", "len() <= 1"), (".len()", ".len() as u8 as usize"), (".len()", ".len() as u16 as usize"), ("as usize", "as u8 as usize"), ("as Count", "as u8 as Count"),
         ("as Count", "as u16 as Count"), ("as Count", "as u32 as Count"), (".rev()", ""), (" & ", " | "), (" ^ ", " | "), (" % ", " / "), (" * ", " + "), ("&mut self.", "&mut self.clone()."),
         ("as u64", "as u8 as u64"), ("as u64", "as u16 as u64"), ("as u32", "as u16 as u32"), (" += ", " = "), (" += ", " -= "), (" ^= ", " = "), ("rotate_right(", "rotate_left(")]


def region(src):
    """lines that are code and not tests"""
    out = []
    for n, l in enumerate(src):
        if l.strip().startswith("#[cfg(test)]") or "mod test" in l and l.strip().startswith("mod test"):
            if n + 1 < len(src) and ("mod test" in src[n + 1] and "{" in src[n + 1] or "{" in l):
                break
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "extern", "}")):
            continue
        out.append(n)
    return out


def mutants(f):
    src = open("/repo/" + f).read().split("\n")
    for n in region(src):
        l = src[n]
        code = l.split("//")[0]
        if "println" in code or "panic!" in code or "assert" in code:
            continue
        for a, b in SWAPS:
            i = code.find(a)
            while i >= 0:
                yield (f, n, l, l[:i] + b + l[i + len(a):], "swap")
                i = code.find(a, i + len(a))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            v = int(m.group(1))
            for w in {v + 1, max(v - 1, 0), 2 * v} - {v}:
                yield (f, n, l, l[:m.start()] + str(w) + l[m.end():], "const")
        s = code.strip()
        if s.endswith(";") and not s.startswith(("let", "return", "type", "pub", "const", "static", "mod", "impl", "fn", "*/")) and code.count("(") == code.count(")") and not s.startswith((")", "}", "]")):
            yield (f, n, l, "", "del")
        m = re.match(r"^(\s*(?:} else )?if )(.*)( \{)$", code)
        if m and not m.group(2).startswith("let"):
            yield (f, n, l, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "iftrue")
            yield (f, n, l, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "iffalse")
        m = re.search(r"\((\w+), (\w+)\)", code)
        if m:
            yield (f, n, l, l[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + l[m.end():], "argswap")
        if n + 1 < len(src):
            t = src[n + 1].split("//")[0].strip()
            if s.endswith(";") and t.endswith(";") and code.count("(") == code.count(")"):
                yield (f, n, l + "\n" + src[n + 1], src[n + 1] + "\n" + l, "order")


def workdir(k):
    c = "/tmp/mutw%s" % k
    if not os.path.exists(c):
        subprocess.run(["cp", "-a", "/repo", c], check=True)
    return c


def apply(c, m):
    f, n, old, new = m["file"], m["line"], m["old"], m["new"]
    p = os.path.join(c, f)
    src = open("/repo/" + f).read().split("\n")
    k = old.count("\n") + 1
    assert "\n".join(src[n:n + k]) == old
    src[n:n + k] = new.split("\n")
    open(p, "w").write("\n".join(src))


def restore(c, m):
    open(os.path.join(c, m["file"]), "w").write(open("/repo/" + m["file"]).read())


def sh(c, cmd, timeout):
    try:
        return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo || exit 99; %s" % (c, cmd)],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        return None


ENV = ("export PATH=/root/.cargo/bin:$PATH HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true "
       "CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= CARGO_TARGET_DIR=/repo/target; unset RUSTFLAGS; ulimit -v 8000000;")


def main():
    cmd = sys.argv[1]
    os.makedirs(D, exist_ok=True)
    if cmd == "gen":
        n, seed = int(sys.argv[2]), int(sys.argv[3])
        allm = []
        for f in sys.argv[4:]:
            ms = list(mutants(f))
            allm.append(ms)
            print(f, len(ms))
        r = random.Random(seed)
        out, seen = [], set()
        for ms in allm:
            r.shuffle(ms)
        # the same number from each file
        cap = int(os.environ.get("CAP", "100000"))
        for i in range(min(cap, max(map(len, allm)))):
            for ms in allm:
                if i < len(ms) and len(out) < n:
                    f, ln, a, b, kind = ms[i]
                    if (f, ln, b) not in seen and a != b:
                        seen.add((f, ln, b))
                        out.append(dict(id=len(out), file=f, line=ln, old=a, new=b, kind=kind))
        json.dump(out, open(D + "/list.json", "w"), indent=0)
        print(len(out))
    elif cmd == "test":
        k, of = int(sys.argv[2]), int(sys.argv[3])
        c = workdir(k)
        done = set()
        o = D + "/test.%d.jsonl" % k
        if os.path.exists(o):
            done = {json.loads(l)["id"] for l in open(o)}
        for m in json.load(open(D + "/list.json")):
            if m["id"] % of != k or m["id"] in done:
                continue
            apply(c, m)
            try:
                crate = m["file"].split("/")[0]
                r = sh(c, ENV + "cd /repo/%s && timeout 100 cargo test -q --offline 2>&1 | tail -5; exit ${PIPESTATUS[0]}" % crate, 200)
                st = "timeout" if r is None else "killed" if r.returncode else "alive"
                if st == "killed" and "could not compile" in r.stdout:
                    st = "nocompile"
                if st == "alive" and crate != "blake2_bin":
                    r = sh(c, ENV + "cd /repo && timeout 200 cargo test -q --offline 2>&1 | tail -5; exit ${PIPESTATUS[0]}", 300)
                    st = "timeout" if r is None else "killed" if r.returncode else "alive"
                if st == "alive":
                    r = sh(c, "bash /opt/vp/build.sh >/dev/null 2>&1 || exit 3; bash /opt/vp/test.sh /tmp/mut/res.%d.json >/dev/null 2>&1; exit 0" % k, 900)
                    if r is None or r.returncode:
                        st = "killed"
                    else:
                        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                        p = set(json.load(open(D + "/res.%d.json" % k))["passed"])
                        st = "alive" if all(t in p for t in base) else "killed"
            finally:
                restore(c, m)
            with open(o, "a") as f:
                f.write(json.dumps(dict(m, status=st)) + "\n")
    elif cmd == "check":
        k, of = int(sys.argv[2]), int(sys.argv[3])
        c = workdir(k)
        o = D + "/check.%d.jsonl" % k
        done = set()
        if os.path.exists(o):
            done = {json.loads(l)["id"] for l in open(o)}
        alive = []
        for g in sorted(os.listdir(D)):
            if re.match(r"test\.\d+\.jsonl$", g):
                alive += [json.loads(l) for l in open(os.path.join(D, g))]
        alive = sorted([m for m in alive if m["status"] == "alive"], key=lambda m: m["id"])
        for i, m in enumerate(alive):
            if i % of != k or m["id"] in done:
                continue
            v = "C01" if m["file"].startswith("blake2b") else "C02"
            w = "C03" if m["file"].startswith("blake2b") else "C04"
            base = os.path.basename(m["file"])
            pids = sys.argv[4:] or {"main.rs": ["C17"], "many.rs": ["C07", "C06", "C08", "C11", "C13", "C12"], "blake2bp.rs": ["C03", "C05", "C10", "C09", "C16", "C12", "C13"],
                                    "blake2sp.rs": ["C04", "C05", "C10", "C09", "C16", "C12", "C13"],
                                    "lib.rs": [v, "C09", "C11", "C10", "C05", "C14", "C16", "C12", "C13", "C15"],
                                    "guts.rs": [v, "C08", "C07", "C14", w, "C12"]}.get(base, [v, "C07", w, "C14", "C12", "C08"])
            apply(c, m)
            res = []
            try:
                for pid in pids:
                    r = sh(c, "cd /verif; timeout 900 python3-vt engine/check.py %s --tier quick" % pid, 950)
                    rc = None if r is None else r.returncode
                    res.append((pid, rc))
                    if rc not in (0, 1):
                        open(D + "/err.%d.%s" % (m["id"], pid), "w").write(r.stdout if r else "timeout")
                    if rc == 1:
                        break
            finally:
                restore(c, m)
            with open(o, "a") as f:
                f.write(json.dumps(dict(m, res=res)) + "\n")


main()
