"""Runs checks against a changed copy of /repo.

  try_mutant.py patch FILE PROP...       apply FILE (git apply)
  try_mutant.py revert COMMIT PROP...    revert COMMIT
Prints one line per property. The copy lives in /tmp and is removed."""
import os, shutil, subprocess, sys, tempfile, time

def main():
    how, what, props = sys.argv[1], sys.argv[2], sys.argv[3:]
    n = os.environ.get("N")
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        if how == "patch":
            p = subprocess.run(["git", "-C", r, "apply", os.path.abspath(what)], capture_output=True, text=True)
        else:
            diff = subprocess.run(["git", "-C", "/repo", "show", what, "--format="], capture_output=True, text=True).stdout
            p = subprocess.run(["git", "-C", r, "apply", "-R"], input=diff, capture_output=True, text=True)
        if p.returncode:
            print("does not apply:", p.stderr.strip()[-300:])
            return 2
        for q in props:
            t = time.time()
            env = dict(os.environ, GSIM_REPO=r, GSIM_OUT=d)
            c = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "gsim", "check", q] + ([f"--n={n}"] if n else []),
                               cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env, capture_output=True, text=True)
            lines = [l for l in c.stdout.splitlines() if l.strip()]
            why = next((l.strip() for l in lines if l.startswith("  ")), lines[-1] if lines else c.stderr[-300:])
            print(f"{what.rstrip('/').split('/')[-2] if how == 'patch' and 'seeded' in what else what} {q} rc={c.returncode} {time.time()-t:.0f}s {why[:230]}", flush=True)
    finally:
        shutil.rmtree(d)
main()
