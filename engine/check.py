"""check.py PROPERTY [--tier quick|thorough]   decide one property
check.py --replay FILE                          replay a recorded counterexample"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)

import build
import cpu
import llexec
import llparse
import path
import runner
import spec
import suites

PY = sys.executable


def native_run(so, cname, jobs, timeout=300):
    """[result dict or {'res': 'crash'}] for the jobs; None entries were not run"""
    out = [None] * len(jobs)
    masked = None
    k0 = 0
    while k0 < len(jobs):
        fd, fn = tempfile.mkstemp(suffix=".json", dir=build.workdir())
        with os.fdopen(fd, "w") as f:
            json.dump(jobs[k0:], f)
        try:
            p = subprocess.run([PY, os.path.join(HERE, "native.py"), so, cname, fn], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=timeout)
            rc, txt, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, txt, err = "timeout", (e.stdout or b"").decode(), ""
        os.unlink(fn)
        cur = None
        n = 0
        for l in txt.splitlines():
            d = json.loads(l)
            if "masked" in d:
                masked = d["masked"]
            elif "start" in d:
                cur = d["start"]
            else:
                out[k0 + cur] = d
                n += 1
                cur = None
        if cur is not None:
            if rc == "timeout":
                out[k0 + cur] = {"res": "violation", "label": "native run does not terminate", "detail": ""}
            elif type(rc) is int and rc < 0:
                out[k0 + cur] = {"res": "violation", "label": "crash (signal %d)" % -rc, "detail": ""}
            else:
                out[k0 + cur] = {"res": "error", "label": err[-2000:]}
            k0 = k0 + cur + 1
        else:
            if n < len(jobs) - k0:
                for i in range(k0, len(jobs)):
                    if out[i] is None:
                        out[i] = {"res": "error", "label": err[-2000:]}
            break
    if not masked:
        for i, r in enumerate(out):
            if r is not None and r["res"] in ("ok", "skip", "violation"):
                r["unmasked"] = True
    return out


class ConcreteWitness:
    pass


def concrete_ir_run(mods, sc, wd):
    """interpret the IR on the concrete witness; for a timing finding, on both witnesses of the pair"""
    if "second" not in wd:
        return interpret(mods, sc, wd)
    ta, tb = [], []
    a = interpret(mods, sc, wd, ta)
    b = interpret(mods, sc, wd["second"], tb)
    if a["res"] != "ok" or b["res"] != "ok":
        return {"res": "error", "label": "%s / %s" % (a, b)}
    if ta != tb:
        k = next((k for k in range(min(len(ta), len(tb))) if ta[k] != tb[k]), min(len(ta), len(tb)))
        return {"res": "violation", "label": "execution traces of two inputs of the same shape differ",
                "detail": "at event %d of %d/%d: %s / %s" % (k, len(ta), len(tb), ta[k:k + 1], tb[k:k + 1])}
    return {"res": "ok"}


def interpret(mods, sc, wd, trace=None):
    import terms as T
    import machine
    T.reset()
    path.Z = None
    w = runner.wit_from(wd)
    ctx = path.Ctx()
    X = llexec.Exec(mods[sc.cfg])
    X.reset(ctx)
    X.cpu = cpu.BY_NAME[sc.cpu]
    import sweep
    m = machine.Sym(X, ctx, X.cpu, sweep.Stats())
    T.PIN = w
    if trace is not None:
        m.watch_secrets = lambda: None
        X.cmp_trace = trace
        res = X.resolve

        def resolve(addr, *a):
            trace.append(addr)
            return res(addr, *a)
        X.resolve = resolve
        import llcompile
        mk = llcompile.mk_term

        def mk_term(X, ins, opnd, edge, cur, fname):
            t = mk(X, ins, opnd, edge, cur, fname)

            def term(R):
                e = t(R)
                trace.append((fname, e[2] if e else -1))
                return e
            return term
        llcompile.mk_term = mk_term
    try:
        runner.resolve_fn(sc.fn)(m, **sc.kw)
        return {"res": "ok"}
    except machine.SkipPath as e:
        return {"res": "skip", "label": str(e)}
    except machine.Violation as e:
        return {"res": "violation", "label": e.label}
    except llexec.Panic as e:
        return {"res": "violation", "label": "unexpected panic", "detail": str(e.where)}
    except llexec.UB as e:
        return {"res": "violation", "label": "memory error", "detail": "%s at %s" % (e.what, e.where), "ub": True}
    except Exception as e:
        return {"res": "error", "label": repr(e)}
    finally:
        T.PIN = None
        if trace is not None:
            llcompile.mk_term = mk


def confirm(mods, libs, sc, r):
    """replay a counterexample against the real code; a text describing the reproduction, or None"""
    so = libs.get(sc.cfg)
    cname = sc.cpu if sc.cfg in ("rel", "chk", "uninline") else "-"
    nr = native_run(so, cname, [[sc.to_json(), r["witness"]]])[0] if so else None
    if nr and nr["res"] == "violation" and not nr.get("unmasked"):
        return "native", nr
    if sc.huge:
        return None, {"native": nr}
    cr = concrete_ir_run(mods, sc, r["witness"])
    # memory errors and unsupported-instruction faults need not crash natively: the interpretation of
    # the compiled code on the concrete input is the replay
    if cr["res"] == "violation" and (cr.get("ub") or r.get("interp_ok") or (nr or {}).get("unmasked")):
        return "interpreted", cr
    return None, {"native": nr, "interpreted": cr}


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)["findings"]
    return []


def main():
    t0 = time.time()
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = a[a.index("--only") + 1] if "--only" in a else None
    verbose = "-v" in a
    n_ref = spec.selftest(seed)
    S = suites.suite(pid, tier)
    scs = S["scenarios"]
    if only:
        scs = [s for s in scs if only in s.name]
    cfgs = sorted({s.cfg for s in scs})
    try:
        irs, libs = build.many(cfgs, cfgs)
    except build.BuildError as e:
        print("ERROR build: %s" % e)
        return 2
    tb = time.time() - t0
    mods = {c: llparse.Module(p) for c, p in irs.items()}
    bad = {c: m.errors for c, m in mods.items() if getattr(m, "errors", None)}
    limit = float(os.environ.get("VERIF_LIMIT", "600" if tier == "quick" else "6000"))
    deadline = t0 + limit
    rep_dir = os.path.join(VERIF, "evidence")
    os.makedirs(rep_dir, exist_ok=True)
    found = []
    unrepro = []
    contract = []             # results under the contract of huge.py that no native run confirmed: undecided
    known = [k for k in known_findings() if k["property"] == pid]
    suppressed = []

    def on_violation(sc, r):
        for k in known:
            if k["scenario"] == sc.fn and k["label"] == r["label"]:
                if k["id"] not in suppressed:
                    suppressed.append(k["id"])
                    print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
                return False
        if sc.huge and len(contract) >= 3:
            contract.append(sc.name)
            return False
        how, info = confirm(mods, libs, sc, r)
        if how is None and sc.huge:
            contract.append("%s: %s %s" % (sc.name, r["label"], json.dumps(info)[:200]))
            return False
        if how is None:
            unrepro.append((sc, r, info))
            if len(unrepro) < 4:
                print("note: counterexample not reproduced: %s %s: %s %s" % (sc.name, r["label"], r["detail"], json.dumps(info)[:600]), flush=True)
            return len(unrepro) >= 40
        found.append((sc, r, how, info))
        return True
    tot = runner.explore(mods, scs, workers=int(os.environ.get("VERIF_JOBS", "8")), deadline=deadline, wit_per=S.get("wit_per", 2),
                         on_violation=on_violation, progress=20 if verbose else None)
    # translator validation: one or more models per scenario, run natively
    validated = 0
    mism = []
    if not found:
        groups = {}
        for i, w in tot.witnesses:
            sc = scs[i]
            groups.setdefault((sc.cfg, sc.cpu if sc.cfg in ("rel", "chk", "uninline") else "-"), []).append((sc, w))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            fs = [(g, l, ex.submit(native_run, libs[g[0]], g[1], [[sc.to_json(), w] for sc, w in l])) for g, l in groups.items()]
            for g, l, f in fs:
                for (sc, w), nr in zip(l, f.result()):
                    if nr is None or nr.get("unmasked"):
                        continue
                    if nr["res"] == "ok":
                        validated += 1
                    elif nr["res"] == "violation":
                        # the real code violates the property on a concrete input of this scenario
                        found.append((sc, {"label": nr["label"], "detail": nr.get("detail", ""), "witness": w}, "native", nr))
                    else:
                        mism.append((sc.name, nr))
    wall = time.time() - t0
    # a scenario that decided nothing although nothing was left undecided or cut off tests nothing
    vac = [scs[i].name for i in tot.per if tot.per[i][1] == 0]
    if verbose or os.environ.get("VERIF_DEBUG"):
        for i in sorted(tot.per, key=lambda i: -tot.per[i][3]):
            p = tot.per[i]
            print("%7.1fs %5d paths %6d checks %4d undecided %4d open  %s" % (p[3], p[0], p[1], p[2], p[4], scs[i].name))
    if contract:
        tot.nundecided += len(contract)
        tot.undecided["contract of the compression loops does not describe this tree: " + contract[0]] = len(contract)
    for k, v in sorted(tot.undecided.items(), key=lambda x: -x[1])[:12]:
        print("UNDECIDED %d paths: %s" % (v, k))
    if tot.left:
        print("UNEXPLORED %d open branches at the time limit" % tot.left)
    for x in mism[:5]:
        print("note: validation run failed: %s" % (x,))
    if S.get("post"):
        pass
    samples = []
    for i, w in tot.witnesses[:6]:
        samples.append({"scenario": scs[i].name, "model_of_one_path": {"vars": w["vars"], "array_cells": {k: dict(list(v.items())[:8]) for k, v in w["arrs"].items()}}})
    if not samples:
        samples = [{"scenario": scs[i].name, "paths": tot.per[i][0]} for i in list(tot.per)[:5]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": S["level"],
        "coverage": {
            "states": tot.paths, "transitions": tot.steps, "traces_validated_against_impl": validated, "samples": samples,
            "exhaustive": bool(not tot.left and not tot.nundecided and not found),
            "scenarios": len(scs), "paths_outside_bounds": tot.skips, "assertions": tot.checks,
            "solver_queries": tot.z["queries"], "solver_unsat": tot.z["unsat"], "solver_sat": tot.z["sat"],
            "solver_unknown": tot.z["unknown"], "solver_seconds": round(tot.z["time"], 2),
            "equalities": tot.sweep,
            "undecided_paths": tot.nundecided, "undecided_reasons": tot.undecided, "unexplored_branches": tot.left,
            "functions_encoded": sorted(tot.funcs)[:400], "functions_encoded_count": len(tot.funcs),
            "bounds": S["bounds"], "outside": S["outside"],
            "per_scenario": [{"scenario": scs[i].name, "paths": tot.per[i][0], "assertions": tot.per[i][1],
                              "undecided": tot.per[i][2], "open": tot.per[i][4], "cpu_s": round(tot.per[i][3], 1)} for i in tot.per],
            "reference_model_selftests": n_ref, "build_seconds": round(tb, 1),
            "explanation": "states = symbolic paths completed (each covers every input of its path condition); "
                           "transitions = LLVM instructions executed symbolically",
        },
        "assumptions": S["assumptions"],
        "wall_s": round(wall, 1), "violations": len(found),
    }
    with open(os.path.join(rep_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d paths, %d assertions, %d instructions, %d queries (%.1f s), %d validated natively, %.0f s" % (
        pid, tier, len(scs), tot.paths, tot.checks, tot.steps, tot.z["queries"], tot.z["time"], validated, wall))
    if found:
        sc, r, how, info = found[0]
        rp = os.path.join(rep_dir, "replay-%s.json" % pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, "scenario": sc.to_json(), "label": r["label"], "detail": r.get("detail", ""),
                       "witness": r["witness"], "reproduced": how, "observed": info}, f, indent=1)
        print("counterexample: %s: %s %s" % (sc.name, r["label"], r.get("detail", "")[:300]))
        print("reproduced (%s): %s %s" % (how, info.get("label"), str(info.get("detail", ""))[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if unrepro:
        print("ERROR %d counterexamples did not reproduce (encoding error)" % len(unrepro))
        return 2
    if mism:
        print("ERROR native validation runs failed")
        return 2
    if vac:
        print("note: no assertion was decided in: %s" % "; ".join(vac[:8]))
    if tot.checks == 0 or len(vac) * 2 > len(scs):
        print("ERROR most scenarios decided nothing")
        return 2
    return 0


def replay(fn):
    with open(fn) as f:
        d = json.load(f)
    sc = runner.Scenario.from_json(d["scenario"])
    irs, libs = build.many([sc.cfg], [sc.cfg])
    mods = {c: llparse.Module(p) for c, p in irs.items()}
    how, info = confirm(mods, libs, sc, d)
    print(how, info)
    return 1 if how else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
