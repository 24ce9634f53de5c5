"""C08: no result depends on what memory held before."""
from __future__ import annotations

import torch

from ..common import *  # noqa: F401,F403
from ..program import compare_outputs, gen_program, run_program
from ..world import World

ID = "C08"
QUICK = 1300
THOROUGH = 15000
RULE = ("A run is a program of constructions, forward/backward calls, group functions, grid requests and norm/pool layers, executed "
        "several times from the same generator state while every allocation of unwritten memory is filled with another "
        "pattern (zero, NaN, infinity, huge, noise); all results must agree. Non-trivial: at least one allocation was poisoned.")
STATES = "hash of the program"
LISTS = ("steps",)
STUBS = "content of unwritten memory (chosen), clock, os.urandom and terminal"


def gen(rng, tier):
    pats = rng.sample(["zero", "nan", "inf", "huge", "noise"], 3)
    return dict(prog=gen_program(rng), pats=pats, none=rng.chance(0.4))


def run(plan, ctx):
    prog = plan["prog"]
    ref = None
    ctx.state(str([(s["op"], s.get("name"), s.get("kind"), s.get("how")) for s in prog["steps"]]) + str([(c["fam"], c["kind"]) for c in prog["cfgs"]]))
    for p in plan["pats"] + ([None] if plan["none"] else []):
        w = World()
        torch.manual_seed(plan["seed"] & 0x7FFFFFFF)
        out = run_program(ctx, w, prog, seam=dict(poison=p))
        if ref is None:
            ref, first = out, p
        else:
            compare_outputs("memory", prog, ref, out, f"memory filled with {p} instead of {first}")
    ctx.nontrivial = sum(v for k, v in ctx.faults.items() if k.startswith("poison")) > 0
    ctx.ev(sig(*[t for o in ref for _, t in o]))
