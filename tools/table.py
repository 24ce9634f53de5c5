"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra = dict(json.load(open(os.path.join(root, "tools", "caught.json"))))
mark = "## Planted changes\n"
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = s[:s.index(mark)]
out = [mark, "", "`seeded/<id>/` holds changes written from property texts; each builds, passes the stable tests, and has a demonstration.",
       "\"caught by\" names the checks (quick tier) seen to report it.", "", "| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(extra.get(d, [m['property']])) or 'not caught'} |")
open(p, "w").write(head + "\n".join(out) + "\n")
