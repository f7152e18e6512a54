#!/usr/bin/env python3
"""Writes seeded/<id>/ from the specs in tools/seeds/*.py.
A spec calls seed(id, property, edits, demo, needs, breaks); edits = [(file, old, new)]."""
import os, sys, glob, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = set(sys.argv[1:])
base = tempfile.mkdtemp(prefix="/tmp/mkseed-")
subprocess.run(f"git -C /repo archive HEAD | tar x -C {base} && cd {base} && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm base", shell=True, check=True)
made = []

def seed(id, prop, edits, demo, needs, breaks, extra=None):
    if only and id not in only:
        return
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = f"{base}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
        subprocess.run(["gofmt", "-l", p], check=True)
    diff = subprocess.run(["git", "-C", base, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", base, "checkout", "-q", "--", "."], check=True)
    open(f"{d}/patch.diff", "w").write(diff)
    shutil.copy(f"{V}/tools/demo/{'wallet/' if extra == 'wallet' else ''}demo.sh", f"{d}/demo.sh")
    if extra == "wallet":
        shutil.copy(f"{V}/tools/demo/wallet/wallet.go", f"{d}/wallet.go")
    shutil.copy(f"{V}/tools/demo/kit.go", f"{d}/kit.go")
    open(f"{d}/demo.go", "w").write(demo.strip() + "\n")
    subprocess.run(["gofmt", "-w", f"{d}/demo.go"], check=True)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    made.append(id)

for f in sorted(glob.glob(f"{V}/tools/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
shutil.rmtree(base)
print(" ".join(made))
