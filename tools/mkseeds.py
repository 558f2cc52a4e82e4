"""Writes /verif/seeded/<id>/ from the table below (patches are made against /repo's HEAD in a scratch worktree)."""
import json, os, subprocess, sys
OUT = "/verif/seeded"
W = "/tmp/seedwt"

DEMO = '''#!/bin/bash
# builds a small program against /repo's crates and runs it; scratch files only in %(t)s
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%(t)s/target%(env)s
unset CARGO_ENCODED_RUSTFLAGS
repo=$PWD
rm -rf %(t)s
mkdir -p %(t)s/src || exit 3
cp "$here/main.rs" %(t)s/src/main.rs
cat > %(t)s/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
blake2b_simd = { path = "$repo/blake2b"%(feat)s }
blake2s_simd = { path = "$repo/blake2s"%(feat)s }
[workspace]
EOF
cd %(t)s
cargo build -q --offline %(flags)s || { rm -rf %(t)s; exit 3; }
%(run)s
rc=$?
cd /
rm -rf %(t)s
exit $rc
'''

CLIDEMO = '''#!/bin/bash
# builds the blake2 command from /repo and runs it; scratch files only in %(t)s
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%(t)s/target
unset CARGO_ENCODED_RUSTFLAGS
repo=$PWD
rm -rf %(t)s
mkdir -p %(t)s/blake2_bin || exit 3
# only the program's sources are copied (cargo would touch the lock file), with the paths of the library made absolute
cp -r blake2_bin/src %(t)s/blake2_bin/
cp blake2_bin/Cargo.lock %(t)s/blake2_bin/ 2>/dev/null
sed "s#path = \\"\\.\\./#path = \\"$repo/#" blake2_bin/Cargo.toml > %(t)s/blake2_bin/Cargo.toml
cd %(t)s/blake2_bin
cargo build -q --offline || { cd /; rm -rf %(t)s; exit 3; }
b=%(t)s/target/debug/blake2
cd %(t)s
(
%(body)s
)
rc=$?
cd /
rm -rf %(t)s
exit $rc
'''

S = []


def cliseed(id, prop, edits, body, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, body=body, needs=needs, breaks=breaks))


def seed(id, prop, edits, main, needs, breaks, flags="", env="", feat="", run=None):
    S.append(dict(id=id, prop=prop, edits=edits, main=main, needs=needs, breaks=breaks, flags=flags, env=env, feat=feat, run=run))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds.py")).read())

only = sys.argv[1:]
subprocess.run("git -C /repo worktree remove --force %s 2>/dev/null; git -C /repo worktree prune; git -C /repo worktree add --detach %s HEAD" % (W, W), shell=True, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    for s in S:
        if only and s["id"] not in only:
            continue
        subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
        for f, a, b in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(a) != 1:
                sys.exit("%s: %d occurrences of %r in %s" % (s["id"], t.count(a), a, f))
            open(p, "w").write(t.replace(a, b))
        diff = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        d = os.path.join(OUT, s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if "body" in s:
            sh = CLIDEMO % dict(t="/tmp/demo-" + s["id"], body=s["body"].strip())
            open(os.path.join(d, "demo.sh"), "w").write(sh)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            print(s["id"])
            continue
        open(os.path.join(d, "main.rs"), "w").write(s["main"].lstrip())
        t = "/tmp/demo-" + s["id"]
        rel = "release" if "--release" in s["flags"] else "debug"
        run = s["run"] or "%(t)s/target/%(rel)s/demo"
        run = run % dict(t=t, rel=rel)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(t=t, flags=s["flags"], env=s["env"], feat=s["feat"], run=run))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(s["id"])
finally:
    subprocess.run("git -C /repo worktree remove --force %s; git -C /repo worktree prune" % W, shell=True)
