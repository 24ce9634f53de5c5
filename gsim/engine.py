"""Running one plan, minimising, batches over worker processes, evidence."""
from __future__ import annotations

import copy
import gc
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

from . import seams
from . import world as W
from .core import Ctx, HarnessError, Rng, Skip, Violation, brief, derive, from_repo, plan_hash
from .seams import is_sim

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
OUT = os.environ.get("GSIM_OUT", ROOT)   # where evidence and replays go

PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11",
         "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"]


def load_prop(pid):
    return importlib.import_module("gsim.props." + pid.lower())


# ------------------------------------------------------------------- one run


def run_plan(prop, plan, keep_log=False):
    """-> (status, kind, msg, ctx); status: ok | skip | violation | error"""
    ctx = Ctx(keep_log)
    seams._pending.fault = False
    e = plan.get("env", {})
    env = W.Env(seed=e.get("seed", 1), clock=e.get("clock", 1.7e9), tick=e.get("tick", 1e-4),
                jumps=[tuple(j) for j in e.get("jumps", [])],
                stderr_faults=[tuple(j) for j in e.get("stderr", [])])
    W.reset_torch()
    status, kind, msg = "ok", None, None
    with W.Machine(env):
        W.seed_all(plan.get("seed", 0))
        try:
            prop.run(plan, ctx)
        except Skip as s:
            status, msg = "skip", str(s)
        except Violation as v:
            status, kind, msg = "violation", v.kind, v.msg
        except HarnessError as h:
            status, msg = "error", "harness: " + str(h)
        except BaseException as x:
            if isinstance(x, (SystemExit, GeneratorExit)):
                raise
            if is_sim(x):
                status, msg = "error", "injected fault escaped: " + "".join(traceback.format_exception(x))[-1500:]
            elif isinstance(x, KeyboardInterrupt):
                raise
            elif from_repo(x):
                status, kind, msg = "violation", "exception", "library raised " + brief(x)
            else:
                status, msg = "error", "".join(traceback.format_exception(x))[-2500:]
    W.reset_torch()
    if env.reads:
        ctx.simtime += env.advanced
    if env.stderr.fired:
        ctx.faults["stderr"] += env.stderr.fired
    if env.jumps and env.reads >= min(env.jumps):
        ctx.faults["clock_jump"] += 1
    ctx.ev("end", status, kind)
    return status, kind, msg, ctx


def make_plan(prop, seed, tier, i):
    rng = Rng(seed, prop.ID, i)
    rng.index = i
    plan = prop.gen(rng, tier)
    plan.setdefault("seed", derive(seed, prop.ID, i, "sut") & 0xFFFFFFFFFFFF)
    if "env" not in plan:
        env = dict(seed=rng.seed63(), clock=1.6e9 + rng.random() * 3e8, tick=rng.pick([1e-5, 1e-3, 0.2]))
        if rng.chance(0.3):
            env["jumps"] = [[rng.randrange(1, 60), rng.pick([-3600.0, 86400.0, -1.0, 1e6])] for _ in range(2)]
        plan["env"] = env
    return plan


# ----------------------------------------------------------------- minimising

CFG_SIMPLE = dict(groups=1, bias=False, mask=True, dilation=1, pmode="zeros", spad="border",
                  smode="bilinear", width=0.0, grid=None, dtype="f32", gmode="rbf", stride=1)
NONE_KEYS = ("draws", "fault", "poison", "jumps", "stderr", "sched", "prior")


def _walk(node, path=()):
    yield path, node
    if isinstance(node, dict):
        for k in list(node):
            yield from _walk(node[k], path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from _walk(v, path + (i,))


def _set(plan, path, val):
    p = copy.deepcopy(plan)
    n = p
    for k in path[:-1]:
        n = n[k]
    n[path[-1]] = val
    return p


def candidates(prop, plan):
    if hasattr(prop, "simplify"):
        yield from prop.simplify(plan)
    keys = getattr(prop, "LISTS", ("ops", "calls", "faults", "prior", "points", "decisions", "threads"))
    for path, node in list(_walk(plan)):
        if isinstance(node, list) and path and path[-1] in keys and len(node) > 0:
            n = len(node)
            step = n
            while step >= 1:
                for i in range(0, n, step):
                    if step == n and path[-1] not in ("prior", "faults", "decisions"):
                        continue
                    yield _set(plan, path, node[:i] + node[i + step:])
                step //= 2
    for path, node in list(_walk(plan)):
        if isinstance(node, dict):
            if "fam" in node and "kind" in node and "gk" in node:
                for k, v in CFG_SIMPLE.items():
                    if k in node and node[k] != v:
                        yield _set(plan, path + (k,), v)
            for k in NONE_KEYS:
                if node.get(k):
                    yield _set(plan, path + (k,), [] if isinstance(node[k], list) else None)


def minimise(prop, plan, kind, budget=45.0, log=lambda s: None):
    t0 = W.wall()
    best = plan
    tried = 0
    improved = True
    seen = {plan_hash(plan)}
    while improved and W.wall() - t0 < budget:
        improved = False
        for c in candidates(prop, best):
            if W.wall() - t0 > budget:
                break
            h = plan_hash(c)
            if h in seen:
                continue
            seen.add(h)
            tried += 1
            try:
                st, k, m, ctx = run_plan(prop, c)
            except BaseException as x:
                if isinstance(x, KeyboardInterrupt) and not is_sim(x):
                    raise
                continue
            if st == "violation" and k == kind:
                best = c
                improved = True
                break
    return best, tried


# -------------------------------------------------------------------- workers


def _worker(pid, seed, tier, idxs, conn, deadline):
    sys.stdin = open(os.devnull)
    if os.environ.get("GSIM_DEBUG"):
        import faulthandler
        faulthandler.dump_traceback_later(int(os.environ["GSIM_DEBUG"]), file=open(f"/tmp/gsim-tb-{os.getpid()}", "w"))
    prop = load_prop(pid)
    if hasattr(prop, "setup"):
        prop.setup()
    for i in idxs:
        if W.wall() > deadline:
            conn.send(("cap", i))
            break
        try:
            conn.send(("start", i))
            plan = make_plan(prop, seed, tier, i)
            st, kind, msg, ctx = run_plan(prop, plan)
            conn.send(("res", i, dict(
                status=st, kind=kind, msg=msg, digest=ctx.digest(), phash=plan_hash(plan),
                faults=dict(ctx.faults), ops=dict(ctx.ops), probes=dict(ctx.probes),
                states=list(ctx.states), simtime=ctx.simtime, steps=ctx.steps,
                nontrivial=ctx.nontrivial, sched=ctx.sched_traces if st == "violation" else None,
                metrics=ctx.metrics)))
        except BaseException as e:  # the harness itself
            conn.send(("res", i, dict(status="error", kind=None,
                                      msg="worker: " + "".join(traceback.format_exception(e))[-2500:],
                                      digest="", phash="", faults={}, ops={}, probes={}, states=[],
                                      simtime=0, steps=0, nontrivial=False, sched=None, metrics={})))
        if i % 20 == 0:
            gc.collect()
    conn.send(("done", None))
    conn.close()


def run_batch(pid, seed, tier, n, workers=None, cap=None, start=0, stop_on_violation=True, hang=240.0):
    """Runs scenarios start..start+n-1 over forked workers; deterministic per scenario."""
    W.warm()
    workers = workers or max(1, min(8, os.cpu_count() or 1))
    workers = min(workers, n)
    ctxm = mp.get_context("fork")
    deadline = W.wall() + (cap if cap else 1e9)
    procs, conns = [], []
    for w in range(workers):
        a, b = ctxm.Pipe(False)
        p = ctxm.Process(target=_worker, args=(pid, seed, tier, list(range(start + w, start + n, workers)), b, deadline),
                         daemon=True)
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    res = {}
    running = {}
    capped = False
    open_conns = dict(enumerate(conns))
    hung = None
    while open_conns:
        ready = mp.connection.wait(list(open_conns.values()), timeout=5)
        for w, c in list(open_conns.items()):
            if c in ready:
                try:
                    m = c.recv()
                except EOFError:
                    if w in running and running[w][0] not in res:
                        i = running[w][0]
                        res[i] = dict(status="error", kind=None, msg=f"worker died in scenario {i} (exit {procs[w].exitcode})",
                                      digest="", phash="", faults={}, ops={}, probes={}, states=[], simtime=0,
                                      steps=0, nontrivial=False, sched=None, metrics={})
                    del open_conns[w]
                    continue
                if m[0] == "start":
                    running[w] = (m[1], W.wall())
                elif m[0] == "res":
                    res[m[1]] = m[2]
                    running.pop(w, None)
                elif m[0] == "cap":
                    capped = True
                elif m[0] == "done":
                    del open_conns[w]
        now = W.wall()
        for w, (i, t) in list(running.items()):
            if now - t > hang:
                hung = i
        bad = [i for i, r in res.items() if r["status"] == "violation"]
        if hung is not None or (bad and stop_on_violation):
            break
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    return res, capped, hung


# ---------------------------------------------------------------------- check


def known_findings():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("findings", [])


def check(pid, tier, seed, n=None, out=sys.stdout):
    prop = load_prop(pid)
    t0 = W.wall()
    n = n or (prop.QUICK if tier == "quick" else prop.THOROUGH)
    cap = 330.0 if tier == "quick" else getattr(prop, "THOROUGH_CAP", 3000.0)
    if hasattr(prop, "pre"):
        # work outside the batch (other interpreters); may report a violation
        pre = prop.pre(seed, tier)
    else:
        pre = None
    res, capped, hung = run_batch(pid, seed, tier, n, cap=cap)
    wall = W.wall() - t0
    known = [k for k in known_findings() if k["property"] == pid]
    viol = sorted(i for i, r in res.items() if r["status"] == "violation")
    unk = []
    hits = set()
    for i in viol:
        for k in known:
            if k["kind"] == res[i]["kind"] and k["match"] in (res[i]["msg"] or ""):
                hits.add(k["id"])
                break
        else:
            unk.append(i)
    errs = sorted(i for i, r in res.items() if r["status"] == "error")
    oks = [r for r in res.values() if r["status"] == "ok"]
    rc = 0
    rep = None
    if pre and pre.get("violation"):
        rep = pre["violation"]
        rc = 1
    elif unk:
        i = unk[0]
        plan = make_plan(prop, seed, tier, i)
        rep = report(prop, plan, res[i], i, seed, tier)
        rc = 1
    elif hung is not None:
        print(f"HARNESS: scenario {hung} of {pid} hung", file=out)
        rc = 2
    elif errs:
        for i in errs[:3]:
            print(f"HARNESS: scenario {i} of {pid}: {res[i]['msg']}", file=out)
        rc = 2
    elif not oks:
        print(f"HARNESS: nothing of {pid} was explored", file=out)
        rc = 2
    ev = evidence(prop, tier, seed, res, wall, capped, rc, pre)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}" + ("" if k["id"] in hits else " (not met in this run)"), file=out)
    c = ev["coverage"]
    print(f"{pid} {tier} seed={seed}: {c['evaluations']} runs, {c['distinct_nontrivial']} distinct non-trivial, "
          f"{c['skipped']} skipped, {wall:.1f}s, faults {sum(c['faults_injected'].values())}, rc={rc}", file=out)
    if rep:
        print(f"  {rep['kind']}: {rep['msg']}", file=out)
        print(f"  scenario {rep['index']}, minimised in {rep['tried']} runs, "
              f"reproduced in a fresh process: {rep['reproduced']}", file=out)
        print(f"VIOLATION property={pid} replay={rep['path']}", file=out)
    out.flush()
    return rc


def report(prop, plan, r, i, seed, tier):
    if r.get("sched"):
        # from here on the schedules are explicit lists of context switches
        plan = copy.deepcopy(plan)
        nodes = [n for p, n in _walk(plan) if isinstance(n, dict) and isinstance(n.get("sched"), dict)]
        for node, tr in zip(nodes, r["sched"]):
            node["sched"] = dict(decisions=tr)
    st, kind, msg, ctx = run_plan(prop, plan)
    if st != "violation":
        # the worker saw it, this process does not: keep the evidence as it is
        best, tried, kind, msg = plan, 0, r["kind"], r["msg"]
    else:
        best, tried = minimise(prop, plan, kind)
        st, kind, msg, ctx = run_plan(prop, best, keep_log=True)
        if st != "violation":
            best = plan
            st, kind, msg, ctx = run_plan(prop, best, keep_log=True)
            if st != "violation":
                kind, msg = r["kind"], r["msg"]
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    path = os.path.join(OUT, "replays", f"{prop.ID}-{seed}-{i}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop.ID, seed=seed, tier=tier, index=i, kind=kind, msg=msg,
                       digest=ctx.digest(), plan=best, log=ctx.log[:400]), f, indent=1)
        f.write("\n")
    rep = subprocess.run([PY, "-B", "-m", "gsim", "replay", path], cwd=ROOT,
                         capture_output=True, text=True, timeout=300)
    return dict(kind=kind, msg=msg, index=i, tried=tried, path=path,
                reproduced=(rep.returncode == 1), out=rep.stdout[-500:])


def replay(path, out=sys.stdout):
    with open(path) as f:
        r = json.load(f)
    W.warm()
    prop = load_prop(r["property"])
    if hasattr(prop, "replay"):
        return prop.replay(r, path, out)
    if hasattr(prop, "setup"):
        prop.setup()
    st, kind, msg, ctx = run_plan(prop, r["plan"], keep_log=True)
    print(f"replay of {r['property']}: {st} {kind} {msg}", file=out)
    print(f"  event log {ctx.nev} events, digest {ctx.digest()} (recorded {r['digest']})", file=out)
    if st == "violation" and kind == r["kind"]:
        print(f"VIOLATION property={r['property']} replay={path}", file=out)
        return 1
    return 0 if st in ("ok", "skip") else 2


def _merge(rs, key):
    t = {}
    for r in rs:
        for k, v in r[key].items():
            t[k] = t.get(k, 0) + v
    return dict(sorted(t.items()))


def evidence(prop, tier, seed, res, wall, capped, rc, pre):
    done = [r for r in res.values() if r["status"] in ("ok", "violation")]
    nontriv = {r["phash"] for r in done if r["nontrivial"]}
    states = set()
    for r in done:
        states.update(r["states"])
    samples = []
    for i in sorted(res)[:400]:
        if res[i]["status"] == "ok" and res[i]["nontrivial"]:
            samples.append(make_plan(prop, seed, tier, i))
            if len(samples) == 2:
                break
    per_h = 3600.0 / max(wall, 1e-6)
    cov = dict(
        evaluations=len(done), distinct_nontrivial=len(nontriv),
        rule=prop.RULE, samples=samples,
        skipped=sum(r["status"] == "skip" for r in res.values()),
        runs_per_hour=int(len(done) * per_h),
        seeds_per_hour=int(len({r["phash"] for r in done}) * per_h),
        simulated_seconds=round(sum(r["simtime"] for r in done), 3),
        steps=sum(r["steps"] for r in done),
        faults_injected=_merge(done, "faults"),
        operations=_merge(done, "ops"),
        rare_conditions=_merge(done, "probes"),
        distinct_states=len(states),
        state_measure=getattr(prop, "STATES", "hash of configuration kind and operation sequence"),
        real_components=getattr(prop, "REAL", "all of gconv from /repo's working tree; torch operators, autograd and torch's generator"),
        stubbed_components=getattr(prop, "STUBS", "clock, sleep, os.urandom and terminal (virtual)"),
        stopped_by_time_cap=bool(capped),
    )
    if pre:
        cov["other_interpreters"] = pre.get("coverage", {})
    if hasattr(prop, "more_evidence"):
        cov.update(prop.more_evidence(list(res.values())))
    return dict(property=prop.ID, tier=tier, seed=seed, level="exploration", coverage=cov,
                assumptions=getattr(prop, "ASSUME", []) + [
                    "sampled, not exhaustive: a clean batch is evidence, not proof",
                    "CPU only; one torch compute thread"],
                wall_s=round(wall, 2), violations=1 if rc == 1 else 0)
