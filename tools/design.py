#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_text.md with the per-property part filled in
from harness/registry.py and tools/texts.py, so that bounds never go stale."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "harness"), os.path.join(V, "tools")]
from registry import CHECKS
from texts import PROPS, NOT_APPLICABLE
text = open(os.path.join(V, "tools", "design_text.md")).read()
notes = {}
head, rest = text.split("<!-- oracles -->\n")
body, tail = rest.split("<!-- end oracles -->\n")
for line in body.splitlines():
    if line.startswith("- "):
        k, _, t = line[2:].partition(": ")
        notes[k] = t
out = []
for p in PROPS:
    i = p["id"]
    out.append(f"### {i} — {p['title']}\n")
    if i in NOT_APPLICABLE:
        out.append(f"Not applicable: {NOT_APPLICABLE[i]}.\n")
        continue
    c = CHECKS[i]
    out.append(f"- Executed symbolically: {', '.join('`' + f + '`' for f in c['functions'])}.")
    out.append(f"- Oracle: {notes[i]}")
    out.append(f"- Bounds: {c['bounds']}." + ("" if not c["assumptions"] else " Assumed or left open: " + "; ".join(c["assumptions"]) + "."))
    runs = sum(1 for r in c["runs"] if not r.get("thorough_only"))
    more = len(c["runs"]) - runs
    hs = sorted({r["h"] for r in c["runs"]})
    out.append(f"- Runs: {runs} quick" + (f", {more} more in the thorough tier" if more else "") + f"; harness {', '.join('`harness/' + h + '.cpp`' for h in hs)}.\n")
left = set(CHECKS) - set(notes)
assert not left, left
seeds = []
S = os.path.join(V, "seeded")
caught = json.load(open(os.path.join(V, "tools", "seed_results.json"))) if os.path.exists(os.path.join(V, "tools", "seed_results.json")) else {}
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    seeds.append(f"| {d} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {caught.get(d, 'not run')} |")
tail = tail.replace("<!-- seeds -->", "\n".join(["| id | property | change | its check |", "|---|---|---|---|"] + seeds))
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n".join(out) + "\n" + tail)
