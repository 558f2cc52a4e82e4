"""Builds of the harness crate from /repo's current working tree."""
import os
import shutil
import subprocess
import tempfile
import atexit

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TC = "stable-x86_64-unknown-linux-gnu"

# name -> (profile, cargo flags, extra rustflags, native profile)
CONFIGS = {
    "rel": ("release", [], "", "native"),                                    # what users run
    "chk": ("checked", [], "", "nativechecked"),                             # overflow checks and debug assertions on
    "nostd": ("release", ["--no-default-features"], "", "native"),
    "nostd41": ("release", ["--no-default-features"], "-C target-feature=+sse4.1", "native"),
    "nostdavx": ("release", ["--no-default-features"], "-C target-feature=+avx", "native"),
    "stdavx2": ("release", [], "-C target-feature=+avx2", "native"),
    "nostdavx2": ("release", ["--no-default-features"], "-C target-feature=+avx2", "native"),
    "cli": None,                                                             # the command line tool itself
    "uninline": ("release", ["--features", "uninline"], "", "native"),
}

_dir = None


def workdir():
    global _dir
    if _dir is None:
        keep = os.environ.get("VERIF_BUILD_DIR")
        if keep:
            _dir = keep
            os.makedirs(keep, exist_ok=True)
        else:
            _dir = tempfile.mkdtemp(prefix="vh-build-")
            pid = os.getpid()

            def clean():
                if os.getpid() == pid:
                    shutil.rmtree(_dir, ignore_errors=True)
            atexit.register(clean)
    return _dir


class BuildError(Exception):
    pass


def _run(cmd, env, log):
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def _env(target, rf):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = rf
    e["CARGO_TERM_COLOR"] = "never"
    return e


def ir(cfg):
    """path of the LLVM IR of the harness in configuration cfg"""
    if cfg == "cli":
        return cli(True)
    prof, flags, rf, _ = CONFIGS[cfg]
    t = os.path.join(workdir(), cfg)
    env = _env(t, ("-C no-vectorize-loops -C no-vectorize-slp " + rf).strip())
    p = os.path.join(t, prof, "deps", "vh.ll")
    _run(["cargo", "rustc", "--offline", "--profile", prof] + flags + ["--", "--emit=llvm-ir"], env, None)
    if not os.path.exists(p):
        c = [x for x in os.listdir(os.path.dirname(p)) if x.startswith("vh") and x.endswith(".ll")]
        if len(c) != 1:
            raise BuildError("no LLVM IR produced")
        p = os.path.join(os.path.dirname(p), c[0])
    return p


def native(cfg):
    """path of the shared object of the harness in configuration cfg"""
    if cfg == "cli":
        return cli(False)
    _, flags, rf, prof = CONFIGS[cfg]
    t = os.path.join(workdir(), cfg + "-native")
    env = _env(t, rf)
    fl = list(flags)
    if "--features" in fl:
        i = fl.index("--features")
        fl[i + 1] += ",native"
    else:
        fl += ["--features", "native"]
    _run(["cargo", "build", "--offline", "--profile", prof] + fl, env, None)
    p = os.path.join(t, prof, "libvh.so")
    # a private copy per build, so that a later build cannot change a mapped file
    return p


def cli(want_ir):
    """the command line tool: LLVM IR of the whole program, or the program (with the read shim beside it)"""
    t = os.path.join(workdir(), "cli" if want_ir else "cli-native")
    env = _env(t, "-C no-vectorize-loops -C no-vectorize-slp" if want_ir else "")
    cmd = ["cargo", "rustc", "--offline", "--locked", "--release", "--manifest-path", "/repo/blake2_bin/Cargo.toml", "--bin", "blake2"]
    if want_ir:
        env.update(CARGO_PROFILE_RELEASE_LTO="fat", CARGO_PROFILE_RELEASE_CODEGEN_UNITS="1", CARGO_PROFILE_RELEASE_PANIC="abort")
        deps = os.path.join(t, "release", "deps")
        if os.path.isdir(deps):
            for x in os.listdir(deps):
                if x.startswith("blake2-") and x.endswith(".ll"):
                    os.unlink(os.path.join(deps, x))
            # cargo would not run the compiler again for an unchanged tree
            shutil.rmtree(os.path.join(t, "release", ".fingerprint"), ignore_errors=True)
        _run(cmd + ["--", "--emit=llvm-ir"], env, None)
        c = [x for x in os.listdir(deps) if x.startswith("blake2-") and x.endswith(".ll")]
        if len(c) != 1:
            raise BuildError("no LLVM IR produced")
        return os.path.join(deps, c[0])
    _run(cmd, env, None)
    d = os.path.join(t, "release")
    _run(["gcc", "-shared", "-fPIC", "-O1", "-o", os.path.join(d, "shim.so"), os.path.join(HERE, "shim.c"), "-ldl"], env, None)
    return os.path.join(d, "blake2")


def many(irs, natives):
    """build several configurations in parallel; returns (dict, dict)"""
    from concurrent.futures import ThreadPoolExecutor
    workdir()
    with ThreadPoolExecutor(8) as ex:
        a = {c: ex.submit(ir, c) for c in irs}
        b = {c: ex.submit(native, c) for c in natives}
        return {c: f.result() for c, f in a.items()}, {c: f.result() for c, f in b.items()}
