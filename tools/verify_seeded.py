#!/usr/bin/env python3
"""verify_seeded.py [--dir D] [--lanes N] [ID...]: re-confirms every planted bug against /repo's HEAD in scratch copies:
the demo passes without it; with it the crate builds, the stable tests pass and the demo fails."""
import json, os, queue, re, shutil, subprocess, sys, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
def opt(n, d):
    if n in a:
        i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
    return d
SEED = opt("--dir", HERE + "/seeded"); lanes = int(opt("--lanes", "4"))
names = [s.split("::")[1] for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
base = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H"], stdout=subprocess.PIPE, text=True).stdout.split()[0]
q = queue.Queue()
for i in (a or sorted(os.listdir(SEED))): q.put(i)
bad = []
def run(c, cwd, **k): return subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def lane(w):
    d = "/tmp/vseed/%d" % w
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    r = d + "/repo"
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        s = SEED + "/" + i; why = []
        if "--with-only" not in sys.argv and run([s + "/demo.sh"], r).returncode != 0: why.append("demo fails without")
        if run(["git", "apply", s + "/patch.diff"], r).returncode: why.append("does not apply")
        else:
            t = run(["timeout", "-k", "5", "300", "cargo", "test", "--workspace", "--no-fail-fast", "--offline"], r).stdout
            if "could not compile" in t: why.append("does not build")
            miss = [n for n in names if "test %s ... ok" % n not in t]
            if miss: why.append("tests fail: " + " ".join(miss))
            o = run([s + "/demo.sh"], r)
            if o.returncode == 0: why.append("demo passes with")
            if "could not compile" in o.stdout: why.append("demo does not compile")
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=r)
        if why: bad.append(i)
        print(i, "; ".join(why) or "ok", flush=True)
    shutil.rmtree(d)
ts = [threading.Thread(target=lane, args=(w,)) for w in range(lanes)]
[t.start() for t in ts]; [t.join() for t in ts]
print("BAD:", bad)
