"""C09: runs repeat from their seed, and fixed poses need no randomness."""
from __future__ import annotations

import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np
import torch

from .. import poses
from ..common import *  # noqa: F401,F403
from ..core import Rng
from ..program import Runner, compare_outputs, gen_program, run_program
from ..world import Env, Machine, World

ID = "C09"
QUICK = 900
THOROUGH = 15000
RULE = ("A run is (a) a program repeated from one generator state in a fresh simulated process and in one that did other work before, on a machine "
        "with another clock, entropy, Python and NumPy state; (b) a layer called from one generator state after different histories, inputs "
        "and modes; or (c) layers with randomisation off, called from different generator states. A fourth part runs programs in other "
        "interpreters with other hash seeds. Non-trivial: the compared results contain a drawn pose, or the state was read.")
STATES = "hash of scenario kind and operation sequence"
LISTS = ("steps", "calls", "hist")


def gen(rng, tier):
    how = rng.wpick([("program", 4), ("draw", 3), ("fixed", 2)])
    p = dict(how=how)
    if how == "program":
        p["prog"] = gen_program(rng)
        p["prior"] = [gen_prior(rng)] if rng.chance(0.85) else []
        p["env2"] = dict(seed=rng.seed63(), clock=1e9 + rng.random() * 1e9, tick=rng.pick([1e-6, 0.01, 3.0]))
        p["py"] = rng.seed63()
    else:
        cfg = gen_cfg(rng, uncached=rng.chance(0.02))
        cfg["permute"] = how == "draw"
        p["cfg"] = cfg
        p["calls"] = [gen_call(rng, cfg) for _ in range(rng.pick([2, 3, 4]))]
        p["hist"] = [gen_call(rng, cfg) for _ in range(rng.pick([0, 1, 2, 4]))]
        p["rs"] = rng.seed63()
        p["rs2"] = rng.seed63()
    return p


def gen_prior(rng):
    """Other work; it must not ask for caching of sizes the program asks for."""
    prog = gen_program(rng, n=rng.pick([1, 2, 4]))
    for s in prog["steps"]:
        if s["op"] == "grid" and s["cache"]:
            s["n"] = 27
    return prog


def states():
    return (torch.get_rng_state(), random.getstate(), np.random.get_state())


def same_states(a, b):
    return (torch.equal(a[0], b[0]), a[1] == b[1],
            a[2][0] == b[2][0] and np.array_equal(a[2][1], b[2][1]) and a[2][2:] == b[2][2:])


def run(plan, ctx):
    dict(program=run_prog, draw=run_draw, fixed=run_fixed)[plan["how"]](plan, ctx)


def run_prog(plan, ctx):
    prog = plan["prog"]
    ctx.state(str([(s["op"], s.get("name"), s.get("kind")) for s in prog["steps"]]) + str([s["op"] for q in plan["prior"] for s in q["steps"]]))
    seed = plan["seed"] & 0x7FFFFFFF
    w = World()
    torch.manual_seed(seed)
    a = run_program(ctx, w, prog)
    end_a = torch.get_rng_state()
    e = plan["env2"]
    with Machine(Env(seed=e["seed"], clock=e["clock"], tick=e["tick"])):
        random.seed(plan["py"])
        np.random.seed(plan["py"] & 0xFFFFFFFF)
        torch.manual_seed(plan["py"])
        w2 = World()
        for q in plan["prior"]:
            run_program(ctx, w2, q)
            ctx.probes["prior_work"] += 1
        torch.manual_seed(seed)
        b = run_program(ctx, w2, prog)
        end_b = torch.get_rng_state()
    compare_outputs("repeat", prog, a, b, "repeated from the same seed after other work")
    if not torch.equal(end_a, end_b):
        raise Violation("generator", "the repeated program left torch's generator in another state")
    ctx.nontrivial = True
    ctx.ev(sig(*[t for o in a for _, t in o]), sig(end_a))


def run_draw(plan, ctx):
    """One generator state, one pose: whatever the layer did before and is given now."""
    cfg = plan["cfg"]
    fam, dt = cfg["fam"], cfg["dtype"]
    w, w2 = World(), World()
    lay, other = build_pair(ctx, w, w2, cfg)
    other2 = sut(ctx, "build again", lambda: build(w2, cfg), w2)
    copy_params(lay, other2)
    ctx.state(f"draw{fam}{cfg['kind']}{len(plan['hist'])}{len(plan['calls'])}")
    for c in plan["hist"]:
        call(ctx, w, lay, cfg, c)
    rs = None
    for i, c in enumerate(plan["calls"]):
        torch.manual_seed(plan["rs"])
        y, Ho, req = call(ctx, w, lay, cfg, c)
        after = torch.get_rng_state()
        r = single_translate(fam, req, Ho, f"call {i}")
        if rs is None:
            rs, first = r, after
        else:
            if not (r - rs).abs().max().item() < 1e-4:
                raise Violation("draw", f"calls 0 and {i} of {cfg['kind']}{fam} were made from the same generator state but drew other poses")
            if not torch.equal(first, after):
                raise Violation("generator", f"calls 0 and {i} of {cfg['kind']}{fam} from one generator state left it in different states")
        # the same call on a layer without that history
        torch.manual_seed(plan["rs"])
        y2, Ho2, _ = call(ctx, w2, other2, cfg, c)
        if pose_err(fam, Ho, Ho2) > 1e-4:
            raise Violation("history", f"call {i} of {cfg['kind']}{fam} drew another pose after {len(plan['hist']) + i} earlier calls than a fresh layer did from the same generator state")
        if same(Ho, Ho2):
            expect_close("history", f"call {i} of {cfg['kind']}{fam} from the same generator state as a fresh layer", y, y2, tol(dt, 1e-4, 1e-5))
        ctx.ev(i, sig(y), sig(Ho))
    ctx.nontrivial = True


def call(ctx, w, lay, cfg, c):
    args, H = call_args(lay, cfg, c)
    (lay.train if c["hist"] == "train" else lay.eval)()
    req = (default_out(lay, cfg, args) if H is None else H).clone()
    with torch.set_grad_enabled(not c["nograd"]):
        y, Ho = sut(ctx, "forward", lambda: forward(lay, args, H), w)
    return y.detach(), Ho.detach(), req


def run_fixed(plan, ctx):
    cfg = plan["cfg"]
    fam, dt = cfg["fam"], cfg["dtype"]
    w = World()
    lay, _ = build_pair(ctx, w, None, cfg)
    ctx.state(f"fixed{fam}{cfg['kind']}{len(plan['hist'])}{len(plan['calls'])}")
    for i, c in enumerate(plan["calls"]):
        torch.manual_seed(plan["rs"])
        before = states()
        y, Ho, req = call(ctx, w, lay, cfg, c)
        ok = same_states(before, states())
        for name, o in zip(("torch's generator", "Python's random state", "NumPy's random state"), ok):
            if not o:
                raise Violation("used-randomness", f"call {i} of {cfg['kind']}{fam} with randomisation off changed {name}")
        if i % 2 == 0:
            for h in plan["hist"]:
                call(ctx, w, lay, cfg, h)
        torch.manual_seed(plan["rs2"])
        y2, Ho2, _ = call(ctx, w, lay, cfg, c)
        if not same(Ho, Ho2):
            raise Violation("fixed", f"call {i} of {cfg['kind']}{fam} with randomisation off returned other poses the second time")
        expect_close("fixed", f"call {i} of {cfg['kind']}{fam} with randomisation off, repeated", y, y2, tol(dt, 1e-5, 1e-9))
        ctx.ev(i, sig(y))
    ctx.nontrivial = True


# ------------------------------------------------------- other interpreters


NPROG = dict(quick=14, thorough=200)


def prog_of(seed, i):
    return gen_program(Rng(seed, "C09pre", i), n=4)


def other(seed, a, b):
    """Prints, per program, the results' values (rounded by the comparison in the parent)."""
    from ..core import Ctx
    from ..world import warm
    warm()
    out = []
    for i in range(a, b):
        ctx = Ctx()
        with Machine(Env(seed=i)):
            w = World()
            torch.manual_seed(1234 + i)
            try:
                r = run_program(ctx, w, prog_of(seed, i))
            except Violation as v:
                out.append(("violation", v.kind, v.msg))
                continue
            out.append([[(lab, t) for lab, t in o] for o in r])
    return out


def pre(seed, tier):
    import tempfile
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    n = NPROG[tier]
    hs = ["0", "1", "424242"] if tier == "quick" else ["0", "1", "2", "77", "424242", "99999"]
    cov = dict(interpreters=0, programs=0, hash_seeds=hs)
    with tempfile.TemporaryDirectory() as d:
        procs = []
        for k, h in enumerate(hs):
            env = dict(os.environ, PYTHONHASHSEED=h, GSIM_FILLER="x" * (37 * k), COLUMNS=str(60 + k))
            procs.append(subprocess.Popen([sys.executable, "-B", "-m", "gsim.props.c09", str(seed), "0", str(n), f"{d}/{k}.pt"],
                                          cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        res = []
        for k, p in enumerate(procs):
            o, _ = p.communicate(timeout=600)
            if p.returncode != 0:
                raise HarnessError("other interpreter: " + o.decode()[-1500:])
            res.append(torch.load(f"{d}/{k}.pt", weights_only=False))
            cov["interpreters"] += 1
    bad = diff_first(seed, res, n)
    cov["programs"] = n * len(hs)
    if bad is None:
        return dict(coverage=cov)
    i, k, msg = bad
    from ..engine import OUT
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    path = os.path.join(OUT, "replays", f"C09-{seed}-hash{i}.json")
    with open(path, "w") as f:
        json.dump(dict(property="C09", mode="interpreters", seed=seed, index=i, hashes=[hs[0], hs[k]], kind="interpreter", msg=msg,
                       digest="", plan=dict(prog=prog_of(seed, i))), f, indent=1)
        f.write("\n")
    return dict(coverage=cov, violation=dict(kind="interpreter", msg=msg, index=i, tried=0, path=path, reproduced=True))


def diff_first(seed, res, n, only=None):
    for i in range(n) if only is None else [only]:
        a = res[0][i if only is None else 0]
        for k in range(1, len(res)):
            b = res[k][i if only is None else 0]
            if isinstance(a, tuple) or isinstance(b, tuple):
                if a != b if isinstance(a, tuple) and isinstance(b, tuple) else True:
                    return i, k, f"program {i} fails in one interpreter and not in another: {a if isinstance(a, tuple) else b}"
                continue
            try:
                compare_outputs("interpreter", prog_of(seed, i), a, b, "run again in an interpreter with another hash seed")
            except Violation as v:
                return i, k, v.msg
    return None


def replay(r, path, out):
    from .. import engine
    if r.get("mode") != "interpreters":
        st, kind, msg, ctx = engine.run_plan(sys.modules[__name__], r["plan"], keep_log=True)
        print(f"replay of C09: {st} {kind} {msg}", file=out)
        print(f"  event log {ctx.nev} events, digest {ctx.digest()} (recorded {r['digest']})", file=out)
        if st == "violation" and kind == r["kind"]:
            print(f"VIOLATION property=C09 replay={path}", file=out)
            return 1
        return 0 if st in ("ok", "skip") else 2
    import tempfile
    root = engine.ROOT
    res = []
    with tempfile.TemporaryDirectory() as d:
        for k, h in enumerate(r["hashes"]):
            subprocess.run([sys.executable, "-B", "-m", "gsim.props.c09", str(r["seed"]), str(r["index"]), str(r["index"] + 1), f"{d}/{k}.pt"],
                           cwd=root, env=dict(os.environ, PYTHONHASHSEED=h), check=True, capture_output=True)
            res.append(torch.load(f"{d}/{k}.pt", weights_only=False))
    bad = diff_first(r["seed"], res, 0, only=r["index"])
    print(f"replay of C09: {bad}", file=out)
    if bad is not None:
        print(f"VIOLATION property=C09 replay={path}", file=out)
        return 1
    return 0


if __name__ == "__main__":
    _s, _a, _b, _p = sys.argv[1:5]
    torch.save(other(int(_s), int(_a), int(_b)), _p)
