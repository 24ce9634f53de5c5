"""plant.py SPEC.py...: each SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS
[(file, old, new)...] and DEMO (text of demo.py). Confirms in a scratch copy of
/repo that the change builds, keeps the stable tests, and that the
demonstration passes without it and fails with it; then writes seeded/ID."""
import ast, json, os, shutil, subprocess, sys, tempfile

PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exit 0: the property holds here; nonzero: it is broken
exec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py" 2>&1
"""
PRE = """import os, sys
sys.path.insert(0, os.getcwd())
"""


def tests(repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg")
    p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "gconv/tests", "-rA"],
                       cwd=repo, env=env, capture_output=True, text=True)
    return {l.split(" ", 1)[1].strip() for l in p.stdout.splitlines() if l.startswith("PASSED ")}, p.stdout


def demo(folder, repo):
    p = subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def plant(path):
    spec = {}
    exec(open(path).read(), spec)
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        folder = os.path.join(d, "f")
        os.mkdir(folder)
        open(folder + "/demo.sh", "w").write(DEMO_SH)
        open(folder + "/demo.py", "w").write(PRE + spec["DEMO"].lstrip("\n"))
        base, _ = tests(repo)
        assert len(base) == 11, base
        r0 = demo(folder, repo)
        if r0[0]:
            return "demo fails on the unchanged tree: " + r0[1]
        for f, old, new in spec["EDITS"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            n = spec.get("COUNT", 1)
            if s.count(old) < 1 or (n and s.count(old) != n):
                return f"{f}: {s.count(old)} matches of {old[:50]!r}"
            open(p, "w").write(s.replace(old, new))
            ast.parse(open(p).read())
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        now, out = tests(repo)
        if base - now:
            return f"tests broken: {base - now}"
        r1 = demo(folder, repo)
        if r1[0] == 0:
            return "demo passes with the change: " + r1[1]
        to = os.path.join(os.environ.get("PLANT_OUT", "/verif/seeded"), spec["ID"])
        shutil.rmtree(to, ignore_errors=True)
        shutil.copytree(folder, to)
        open(to + "/patch.diff", "w").write(diff)
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                  open(to + "/meta.json", "w"), indent=1)
        return f"planted; tests {len(now)}; demo rc={r1[0]}: {r1[1].strip().splitlines()[-1][:200] if r1[1].strip() else ''}"
    finally:
        shutil.rmtree(d)


for a in sys.argv[1:]:
    print(a, plant(a), flush=True)
