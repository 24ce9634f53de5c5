import json
import os
import sys


def main(argv):
    cmd = argv[0] if argv else "help"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    opts = [a for a in argv[1:] if a.startswith("--")]
    args = [a for a in argv[1:] if not a.startswith("--")]
    n = None
    for o in opts:
        k, _, v = o[2:].partition("=")
        if k == "tier":
            tier = v
        elif k == "seed":
            seed = int(v)
        elif k == "n":
            n = int(v)
    from . import engine
    if cmd == "check":
        rc = 0
        for pid in args:
            rc = max(rc, engine.check(pid, tier, seed, n))
        return rc
    if cmd == "replay":
        return engine.replay(args[0])
    if cmd == "one":
        prop = engine.load_prop(args[0])
        engine.W.warm()
        if hasattr(prop, "setup"):
            prop.setup()
        plan = engine.make_plan(prop, seed, tier, int(args[1]))
        print(json.dumps(plan)[:3000])
        st, kind, msg, ctx = engine.run_plan(prop, plan, keep_log=True)
        print("\n".join(ctx.log[:200]))
        print(st, kind, msg, dict(ctx.faults), dict(ctx.ops), dict(ctx.probes))
        return 0
    if cmd == "determinism":
        from . import determinism
        return determinism.main(args, seed, tier, n)
    print("usage: python -m gsim check|replay|one|determinism ...")
    return 2


sys.exit(main(sys.argv[1:]))
