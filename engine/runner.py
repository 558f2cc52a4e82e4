"""Exploration of scenarios: all paths of each scenario program, on a pool of workers."""
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

sys.setrecursionlimit(200000)

import cpu
import llexec
import llparse
import machine
import path
import spec
import sweep
import terms as T

SLICE = 0.3          # seconds a worker explores before handing back its open branches


class Scenario:
    """fn: 'module:function', kw: keyword arguments, cfg: build configuration, cpu: CPU profile"""

    def __init__(self, fn, cpu="avx2", cfg="rel", weight=1.0, **kw):
        self.fn = fn
        self.cpu = cpu
        self.cfg = cfg
        self.kw = kw
        self.weight = weight

    @property
    def huge(self):
        """compression loops replaced by their contract; confirmed natively only"""
        return "huge" in self.fn

    @property
    def name(self):
        return "%s(%s)@%s/%s" % (self.fn.split(":")[1], ",".join("%s=%s" % (k, _s(v)) for k, v in sorted(self.kw.items())), self.cfg, self.cpu)

    def to_json(self):
        return {"fn": self.fn, "cpu": self.cpu, "cfg": self.cfg, "kw": self.kw}

    @staticmethod
    def from_json(d):
        return Scenario(d["fn"], d["cpu"], d["cfg"], **d["kw"])


def _s(v):
    return str(v).replace(" ", "")


def resolve_fn(s):
    mod, f = s.split(":")
    return getattr(importlib.import_module(mod), f)


class PathResult:
    __slots__ = ("sc", "status", "label", "detail", "witness", "steps", "checks", "queries", "trace", "funcs")


def wit_json(w):
    if w is None:
        return None
    return {"vars": {k: hex(v) for k, v in w.vars.items()},
            "arrs": {a: {str(k): v for k, v in d.items()} for a, d in w.arrs.items()}, "seed": w.seed}


def wit_from(d):
    return path.Witness({k: int(v, 16) for k, v in d["vars"].items()},
                        {a: {int(k): v for k, v in x.items()} for a, x in d["arrs"].items()}, d["seed"])


class PathTimeout(BaseException):
    pass


def _alarm(*a):
    raise PathTimeout()


PATH_SECONDS = 90


def run_path(X, sc, prefix, keep_witness, c=None):
    """one path; returns (result dict, forks)"""
    T.reset()
    path.Z = None
    ctx = path.Ctx(prefix)
    X.reset(ctx)
    X.cpu = c or cpu.BY_NAME[sc.cpu]
    st = sweep.Stats()
    m = machine.Sym(X, ctx, X.cpu, st)
    r = {"status": "ok", "label": "", "detail": "", "witness": None}
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(60 if sc.huge else PATH_SECONDS)
        try:
            resolve_fn(sc.fn)(m, **sc.kw)
        finally:
            signal.alarm(0)
        if m.checks and keep_witness:
            r["witness"] = wit_json(ctx._model())
    except PathTimeout:
        r.update(status="undecided", label="time limit of one path (%d s)" % PATH_SECONDS)
    except machine.SkipPath as e:
        r["status"] = "skip"
        r["label"] = str(e)
    except machine.Violation as e:
        r.update(status="violation", label=e.label, detail=e.detail, witness=wit_json(e.witness))
        if e.second is not None:
            r["witness"]["second"] = wit_json(e.second)
            r["interp_ok"] = True
    except llexec.Panic as e:
        r.update(status="violation", label="unexpected panic", detail=str(e.where))
    except llexec.UB as e:
        r.update(status="violation", label="memory error", detail="%s at %s" % (e.what, e.where), ub=True)
    except llexec.Limit as e:
        r.update(status="undecided", label="step limit: %s" % e)
    except (path.Inconclusive, T.Unsupported) as e:
        r.update(status="undecided", label=str(e))
    except llexec.Unsupported as e:
        r.update(status="undecided", label="cannot encode: %s" % e)
    except (RecursionError, MemoryError) as e:
        r.update(status="undecided", label=repr(e))
    except Exception as e:
        if "out of memory" in repr(e):
            r.update(status="undecided", label="solver out of memory")
            r["die"] = True
        else:
            r.update(status="undecided", label="internal error: " + traceback.format_exc()[-1500:])
    if r["status"] == "violation" and r["witness"] is None:
        try:
            r["witness"] = wit_json(ctx._model())
        except Exception as e:
            r.update(status="undecided", label="no model for %s (%s)" % (r["label"], e))
    r["steps"] = X.steps
    r["checks"] = m.checks
    r["nforks"] = ctx.nforks
    r["sweep"] = st.__dict__
    return r, ctx.forks


def machine_for(mods, sc):
    if not sc.huge:
        return llexec.Exec(mods[sc.cfg])
    import huge
    fs = huge.functions(mods[sc.cfg])

    def hook(crate):
        def h(X, a):
            X.fns_entered["(contract) compress1_loop"] = 1
            X.hookstate.compress(X, a, crate)
        return h
    return llexec.Exec(mods[sc.cfg], {n: hook(c) for n, c in fs.items()})


def worker(wid, mods, scs, inq, outq, hungry):
    try:
        os.nice(5)
    except OSError:
        pass
    try:
        resource.setrlimit(resource.RLIMIT_AS, (5 << 29, 5 << 29))
    except (ValueError, OSError):
        pass
    execs = {}
    while True:
        t = inq.get()
        if t is None:
            break
        si, prefixes, want_w = t
        sc = scs[si]
        X = execs.get((sc.cfg, sc.huge))
        if X is None:
            X = execs[sc.cfg, sc.huge] = machine_for(mods, sc)
        t0 = time.perf_counter()
        stack = list(prefixes)
        res = []
        q0 = dict(path.STATS)
        while stack:
            p = stack.pop()
            r, forks = run_path(X, sc, p, want_w > 0)
            if r["witness"] is not None and r["status"] == "ok":
                want_w -= 1
            r["trace"] = len(p)
            res.append(r)
            stack.extend(forks)
            if r["status"] == "violation" or r.get("die"):
                break
            if time.perf_counter() - t0 > SLICE or (hungry.value > 0 and len(stack) > 0):
                break
        q1 = path.STATS
        outq.put((wid, si, res, stack, {k: q1[k] - q0[k] for k in q1}, time.perf_counter() - t0,
                  sorted(x for x in X.fns_entered) if X.fns_entered else []))
        X.fns_entered.clear()
        if any(r.get("die") for r in res):
            # z3 does not recover: start afresh
            outq.close()
            outq.join_thread()
            os._exit(7)


class Totals:
    def __init__(self):
        self.paths = 0
        self.skips = 0
        self.steps = 0
        self.checks = 0
        self.undecided = {}
        self.nundecided = 0
        self.z = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "time": 0.0}
        self.sweep = {}
        self.funcs = set()
        self.witnesses = []       # (scenario index, witness json)
        self.violations = []      # (scenario index, result)
        self.per = {}             # scenario index -> [paths, checks, undecided, cpu seconds, open]
        self.left = 0             # unexplored prefixes at the deadline


def explore(mods, scs, workers=8, deadline=None, wit_per=1, max_undecided=400, on_violation=None, progress=None):
    """run all scenarios to completion (or the deadline)"""
    ctx = mp.get_context("fork")
    outq = ctx.Queue()
    hungry = ctx.Value("i", 0, lock=False)
    inqs = [ctx.SimpleQueue() for _ in range(workers)]
    procs = [ctx.Process(target=worker, args=(i, mods, scs, inqs[i], outq, hungry), daemon=True) for i in range(workers)]
    for p in procs:
        p.start()
    tot = Totals()
    open_ = {i: [()] for i in range(len(scs))}
    spent = {i: 0.0 for i in range(len(scs))}
    wleft = {i: 0 if scs[i].huge else wit_per for i in range(len(scs))}
    for i in range(len(scs)):
        tot.per[i] = [0, 0, 0, 0.0, 0]
    idle = list(range(workers))
    busy = {}
    ready = [i for i in range(len(scs))]
    stop = False
    last = time.time()
    import queue as _q
    try:
        while True:
            while idle and not stop:
                cand = [i for i in ready if open_[i]]
                if not cand:
                    break
                if not procs[idle[-1]].is_alive():
                    w = idle[-1]
                    inqs[w] = ctx.SimpleQueue()
                    procs[w] = ctx.Process(target=worker, args=(w, mods, scs, inqs[w], outq, hungry), daemon=True)
                    procs[w].start()
                i = min(cand, key=lambda k: spent[k] / scs[k].weight)
                ps = open_[i]
                # oldest prefix first: closest to the root, likely the biggest subtree
                k = 1 if len(ps) < 4 * workers else 4
                take, open_[i] = ps[:k], ps[k:]
                w = idle.pop()
                ww = 1 if wleft[i] > 0 else 0
                wleft[i] -= ww
                inqs[w].put((i, take, ww))
                spent[i] += 0.05
                busy[w] = (i, ww, time.time(), take)
            hungry.value = len(idle)
            if not busy:
                break
            try:
                w, i, res, left, z, dt, funcs = outq.get(timeout=1.0)
            except _q.Empty:
                now = time.time()
                if deadline and now > deadline:
                    break
                dead = [w for w in busy if not procs[w].is_alive()]
                for w in dead:
                    i, ww, _, take = busy.pop(w)
                    tot.nundecided += 1
                    tot.per[i][2] += 1
                    tot.undecided["worker died (exit %s)" % procs[w].exitcode] = tot.undecided.get("worker died", 0) + 1
                    inqs[w] = ctx.SimpleQueue()
                    procs[w] = ctx.Process(target=worker, args=(w, mods, scs, inqs[w], outq, hungry), daemon=True)
                    procs[w].start()
                    idle.append(w)
                continue
            b = busy.pop(w)
            idle.append(w)
            got_w = 0
            spent[i] += dt
            open_[i].extend(left)
            tot.funcs.update(funcs)
            for k in z:
                tot.z[k] += z[k]
            per = tot.per[i]
            per[3] += dt
            for r in res:
                tot.steps += r["steps"]
                tot.checks += r["checks"]
                for k, v in r["sweep"].items():
                    tot.sweep[k] = tot.sweep.get(k, 0) + v
                per[1] += r["checks"]
                if r["status"] == "ok":
                    tot.paths += 1
                    per[0] += 1
                    if r["witness"] is not None:
                        tot.witnesses.append((i, r["witness"]))
                        got_w += 1
                elif r["status"] == "skip":
                    tot.skips += 1
                elif r["status"] == "violation":
                    tot.violations.append((i, r))
                    tot.paths += 1
                    per[0] += 1
                    if on_violation and on_violation(scs[i], r):
                        stop = True
                else:
                    tot.nundecided += 1
                    per[2] += 1
                    key = r["label"]
                    tot.undecided[key] = tot.undecided.get(key, 0) + 1
            wleft[i] += max(0, b[1] - got_w)
            if per[2] > max_undecided and open_[i]:
                tot.left += len(open_[i])
                open_[i] = []
            if stop or (deadline and time.time() > deadline):
                break
            if progress and time.time() - last > progress:
                last = time.time()
                print("  .. %d paths, %d open, %d undecided, %.0f s solver" % (tot.paths, sum(map(len, open_.values())), tot.nundecided, tot.z["time"]), flush=True)
    finally:
        for i in open_:
            tot.left += len(open_[i])
            tot.per[i][4] = len(open_[i])
        tot.left += sum(len(b[3]) for b in busy.values())
        for b in busy.values():
            tot.per[b[0]][4] += len(b[3])
        for p in procs:
            p.kill()
        for p in procs:
            p.join()
    return tot
