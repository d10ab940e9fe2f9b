#!/usr/bin/env python3
"""hunt.py [--all] [--tier T] [--seed N] [--scale X] [--props C01,C02] [--lanes N] [ID...]
Applies each planted bug to a scratch copy of /repo (HEAD) and runs its property's check (--all: every check; --props:
those) from a scratch copy of /verif's working tree built against it; prints which checks saw it.  /repo is not touched."""
import json, os, shutil, subprocess, sys, threading, queue, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = HERE + "/seeded"          # or --dir D
ROOT = "/tmp/hw"
a = sys.argv[1:]
def opt(n, d=None):
    if n in a:
        i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
    return d
opts = []
for n in ("--tier", "--seed", "--scale"):
    v = opt(n)
    if v: opts += [n, v]
SEED = opt("--dir", SEED)
ROOT = opt("--root", ROOT)
props = opt("--props"); lanes = int(opt("--lanes", "2"))
alls = "--all" in a
ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(SEED))
q = queue.Queue()
for i in ids: q.put(i)
per = max(1, os.cpu_count() // lanes)
def lane(w):
    d = "%s/%d" % (ROOT, w)
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.check_call("git -C /repo archive --prefix=repo/ HEAD | tar x -C " + d, shell=True)
    if os.path.exists("/repo/Cargo.lock"): shutil.copy("/repo/Cargo.lock", d + "/repo/")
    subprocess.check_call(["git", "init", "-q"], cwd=d + "/repo")
    subprocess.check_call("git add -Af && git -c user.email=x -c user.name=x commit -qm base", shell=True, cwd=d + "/repo")
    shutil.copytree(HERE, d + "/verif", ignore=shutil.ignore_patterns("target", ".git", "seeded", "evidence", "replays"))
    t = open(d + "/verif/harness/Cargo.toml").read().replace('"/repo"', '"../../repo"')
    open(d + "/verif/harness/Cargo.toml", "w").write(t)
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        s = SEED + "/" + i
        meta = json.load(open(s + "/meta.json"))
        subprocess.check_call(["git", "apply", s + "/patch.diff"], cwd=d + "/repo")
        ps = props.split(",") if props else (sorted(json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")) if alls else [meta["property"]])
        out = []
        for p in ps:
            t = time.time()
            r = subprocess.run(["taskset", "-c", "%d-%d" % (w * per, w * per + per - 1), d + "/verif/check", p] + opts, cwd=d + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
            st = "CAUGHT" if r.returncode == 1 and v else ("missed" if r.returncode == 0 else "NO-ANSWER(%d)" % r.returncode)
            out.append("%s:%s(%.0fs)" % (p, st, time.time() - t))
            if r.returncode not in (0, 1): print(r.stdout[-2000:])
        print(i, " ".join(out), flush=True)
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=d + "/repo")
    shutil.rmtree(d)
ts = [threading.Thread(target=lane, args=(w,)) for w in range(lanes)]
[t.start() for t in ts]; [t.join() for t in ts]
