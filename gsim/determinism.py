"""`gsim determinism [ID...]`: the digests of the first scenarios of each
property must not depend on the process, the number of workers, the position
in the batch or the hash seed."""
from __future__ import annotations

import json
import os
import subprocess
import sys

from . import engine


def digests(pid, seed, tier, n, workers):
    res, _, _ = engine.run_batch(pid, seed, tier, n, workers=workers, stop_on_violation=False)
    return {str(i): [r["status"], r["digest"]] for i, r in sorted(res.items())}


def main(args, seed, tier, n):
    if args and args[0] == "--child":
        args = args[1:]
    if os.environ.get("GSIM_CHILD"):
        pid, workers = args
        print("DIGESTS " + json.dumps(digests(pid, seed, tier, n, int(workers))))
        return 0
    bad = 0
    for pid in args or engine.PROPS:
        m = n or (2 if pid == "C15" else 24)
        seen = []
        for workers, hs in ((8, "0"), (3, "12345"), (1, "random")):
            if workers == 1 and pid in ("C15",):
                continue
            p = subprocess.run([sys.executable, "-B", "-m", "gsim", "determinism", pid, str(workers), f"--n={m}", f"--seed={seed}",
                                f"--tier={tier}"], cwd=engine.ROOT, capture_output=True, text=True,
                               env=dict(os.environ, GSIM_CHILD="1", PYTHONHASHSEED=hs))
            line = [x for x in p.stdout.splitlines() if x.startswith("DIGESTS ")]
            if not line:
                print(f"{pid}: no digests ({p.stderr[-300:]})")
                bad += 1
                continue
            seen.append(json.loads(line[0][8:]))
        diff = sorted({i for s in seen for i in s if s[i] != seen[0].get(i)})
        print(f"{pid}: {m} scenarios in {len(seen)} environments, " + (f"DIFFER: {diff}" if diff else "identical"))
        bad += bool(diff)
    return 1 if bad else 0
