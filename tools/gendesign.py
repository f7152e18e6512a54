#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the harness comments, properties.jsonl, the seeded changes and tools/seed_results.tsv."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
out = [open("tools/design_head.md").read()]
H = {}
for f in sorted(glob.glob("harness/c*.go")):
    doc = []
    for l in open(f):
        if l.startswith("//"): doc.append(l[2:].strip())
        else:
            m = re.match(r"func (C\d\d)_(\w+)\(\)", l)
            if m:
                d = [x for x in doc if not re.match(r"(reach|cfg|cfg-thorough):", x)]
                H.setdefault(m[1], []).append((m[1] + "_" + m[2], d, any(x.startswith("cfg:") and "preempt" in x or x.startswith("cfg:") and "sched" in x for x in doc)))
            doc = []
res = {}
if os.path.exists("tools/seed_results.tsv"):
    for l in open("tools/seed_results.tsv"):
        a = l.rstrip("\n").split("\t")
        if len(a) >= 4: res[a[0]] = a[1:]
out.append("## Property by property\n\nEach entry: the property, why tests cannot settle it, and for each harness what it decides, within which bounds and under which assumptions (this section is generated from the harnesses, `tools/gendesign.py`). Every bound is exhausted on the unchanged tree in the quick tier, in seconds to a few minutes; `thorough` widens the parts marked so.\n")
for l in open("properties.jsonl"):
    p = json.loads(l)
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Beyond tests:* {p['why_tests_cant']} Anchored in {', '.join('`'+x+'`' for x in p['anchors']['files'])}.\n")
    for n, d, s in H.get(p["id"], []):
        text = " ".join(x for x in d if not re.match(r"(bounds|assumes):", x))
        b = " ".join(x[7:].strip() for x in d if x.startswith("bounds:"))
        a = " ".join(x[8:].strip() for x in d if x.startswith("assumes:"))
        out.append(f"* `{n}` — {text} **Bounds:** {b}." + (f" **Assumes:** {a}." if a else ""))
    if p["id"] not in H: out.append("Not applicable, see above.")
    out.append("")
out.append("## Planted changes\n\nEach compiles, passes the tests, and fails its own demonstration only with the change (`tools/seed.sh` confirms all of that in a scratch copy and runs the check on it). Sources: `tools/seeds/*.py`, built by `tools/mkseed.py`.\n\n| change | breaks | needs | caught by | seconds |\n|---|---|---|---|---|")
for f in sorted(glob.glob("seeded/*/meta.json")):
    i = f.split("/")[1]; m = json.load(open(f)); r = res.get(i, ["", "?", "not run"])
    out.append(f"| {i} | {m['property']}: {m['what_it_breaks']} | {m['needs']} | {r[2] if r[1]=='1' else '**missed**' if r[1]=='0' else '?'} | {r[3] if len(r)>3 else ''} |")
open("DESIGN.md", "w").write("\n".join(out) + "\n")
