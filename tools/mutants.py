#!/usr/bin/env python3
"""Mutation runs (development only): mutants.py PER_FILE SEED WORKERS OUT [file-substring...]"""
import os, random, subprocess, sys, threading, queue, shutil, time
V = "/verif"
MAP = [
 ("pkg/core/hasht.go", "C09 C30 C10 C11 C08"), ("pkg/core/verify.go", "C07 C03 C01 C11 C06 C08"), ("pkg/core/transaction.go", "C10 C07 C01 C19 C03 C33"),
 ("pkg/core/block.go", "C10 C11 C09"), ("pkg/core/difficulty.go", "C08"), ("pkg/core/txfactory.go", "C19 C20 C34"), ("pkg/core/crypto.go", "C03 C32"), ("pkg/core/params.go", "C08 C06 C34"),
 ("internal/chain/state.go", "C02 C05 C22 C21 C04 C29 C18"), ("internal/chain/chain.go", "C04 C05 C18 C21 C22 C15 C35"), ("internal/chain/target.go", "C21"),
 ("internal/inv/inv.go", "C26 C09 C07 C11 C16 C17 C15"), ("internal/inv/serialize.go", "C16 C17 C18"),
 ("pkg/util/util.go", "C25 C33"), ("pkg/queue", "C25"), ("pkg/set", "C25 C11"), ("pkg/syncqueue", "C24 C23"), ("pkg/syncmap", "C24"), ("pkg/disksyncmap", "C24 C17 C16 C18"),
 ("pkg/topic", "C23"), ("pkg/prot/conn.go", "C14 C12 C13"), ("pkg/prot", "C12 C14 C13"),
 ("internal/peer/", "C14 C15 C13 C35"), ("internal/peerfactory", "C27 C35"), ("internal/rest/client", "C33 C34"), ("internal/rest", "C28 C33"), ("internal/miner", "C21"),
 ("cmd/bcwallet", "C32 C34"), ("cmd/bcnode", "C36"), ("internal/bus", "C27 C14"),
]
per, seed, workers, outf = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
only = sys.argv[5:]
files = subprocess.run("git -C /repo ls-files '*.go'", shell=True, capture_output=True, text=True).stdout.split()
rng = random.Random(seed)
jobs = []
for f in files:
    if f.endswith("_test.go") or (only and not any(o in f for o in only)): continue
    ps = next((p for k, p in MAP if f.startswith(k)), None)
    if not ps: continue
    l = subprocess.run([V + "/bin/mutate", "/repo/" + f], capture_output=True, text=True).stdout.splitlines()
    for x in rng.sample(l, min(per, len(l))):
        n, w = x.split("\t", 1)
        jobs.append((f, n, w, ps.split()))
rng.shuffle(jobs)
q = queue.Queue()
for j in jobs: q.put(j)
lock = threading.Lock()
out = open(outf, "a")
def log(*a):
    with lock:
        out.write("\t".join(a) + "\n"); out.flush()
shutil.copy(V + "/bin/gosym", outf + ".gosym")
def worker(i):
    d = f"/tmp/mut-{os.path.basename(outf)}-{i}"
    subprocess.run(f"rm -rf {d} {d}.evid; mkdir -p {d} {d}.evid; git -C /repo archive HEAD | tar x -C {d}; cd {d} && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", shell=True)
    n = os.cpu_count() // workers
    cpus = f"{i*n}-{i*n+n-1}"
    while True:
        try: f, k, w, ps = q.get_nowait()
        except queue.Empty: break
        src = subprocess.run([V + "/bin/mutate", "/repo/" + f, k], capture_output=True).stdout
        open(f"{d}/{f}", "wb").write(src)
        try:
            b = subprocess.run("nice -n 19 go build ./... && timeout 120 nice -n 19 go test ./...", shell=True, cwd=d, capture_output=True, text=True)
            if b.returncode:
                continue
            res = "SURVIVED"
            t0 = time.time()
            for p in ps:
                r = subprocess.run(["nice", "-n", "19", "taskset", "-c", cpus, "timeout", "900", outf + ".gosym", "check", p], capture_output=True, text=True, errors="replace",
                    env=dict(os.environ, GOSYM_REPO=d, GOSYM_EVID=d + ".evid", VERIF_BUDGET="240s"))
                if r.returncode != 0:
                    v = [x for x in r.stdout.splitlines() if x.strip().startswith("harness ")]
                    res = f"{p} rc={r.returncode} {v[0].strip()[:120] if v else ''}"
                    break
            log(f, k, w, res, f"{time.time()-t0:.0f}s")
        finally:
            subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."])
    subprocess.run(["rm", "-rf", d, d + ".evid"])
ts = [threading.Thread(target=worker, args=(i,)) for i in range(workers)]
for t in ts: t.start()
for t in ts: t.join()
