#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--n N] [--workers W] [--seed S] [--scale X] [--only FILE.rs]
Random one-place mutants of /repo's sources (in scratch copies under /tmp/mut): those that compile and pass the
repository's tests are given to the checks (at a reduced scale, all arms until the first violation).
Survivors are either equivalent or show a gap.  A development aid; no check reads its results."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
a = sys.argv[1:]
def opt(n, d):
    return a[a.index(n) + 1] if n in a else d
OUT = a[0]
N = int(opt("--n", "400")); W = int(opt("--workers", "4")); SEED = int(opt("--seed", "1")); SCALE = opt("--scale", "0.1")
ONLY = opt("--only", None)
ROOT = "/tmp/mut"
SRC = "/repo/src"
FILES = ["ast.rs", "simplify.rs", "deriv.rs", "relevance.rs", "regex.rs", "regexbuilder.rs", "bytecompress.rs", "nextbyte.rs", "hashcons.rs", "mapper.rs", "syntax.rs", "pp.rs"]
PROPS = {  # the most likely killers of a file first
 "pp.rs": "C24 C25", "mapper.rs": "C17 C18", "hashcons.rs": "C16", "nextbyte.rs": "C08", "bytecompress.rs": "C09 C25",
 "relevance.rs": "C03 C19 C05 C25 C28", "syntax.rs": "C01 C15 C12", "regexbuilder.rs": "C11 C12 C24 C14", "regex.rs": "C13 C10 C28 C07",
 "deriv.rs": "C19 C02 C28", "simplify.rs": "C20 C21 C19 C02 C25", "ast.rs": "C19 C26 C23 C27 C08 C20"}
ALL = ["C%02d" % i for i in range(1, 40)]
RULES = [
 (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
 (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" \+ 1\b", " + 2"), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"\bif (?!let)(.*) \{$", r"if !(\1) {"), (r"\bif (?!let)(.*) \{$", r"if (\1) && false {"), (r"\bif (?!let)(.*) \{$", r"if (\1) || true {"),
 (r"\b(\d+)\b(?!\.\.)", "INC"), (r"\b([1-9]\d*)\b", "DEC"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
 (r"\|= ", "= "), (r"\|= ", "&= "), (r"&= ", "= "), (r"\+= ", "= "), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\bcontinue;", ""), (r"\bbreak;", ""),
 (r"is_nullable", "is_positive"), (r"is_positive", "is_nullable"), (r"EMPTY_STRING", "NO_MATCH"), (r"NO_MATCH", "EMPTY_STRING"),
 (r"\bANY_BYTE_STRING", "NON_EMPTY_BYTE_STRING"), (r"NON_EMPTY_BYTE_STRING", "ANY_BYTE_STRING"), (r"ANY_BYTE_STRING", "NO_MATCH"),
 (r"^(\s+)(?!let|return|use|const|pub|type|mod|assert|\}|\))([^/].*;)$", r"\1/*\2*/"), (r"saturating_sub\(1\)", "saturating_sub(2)"),
 (r"!(\w)", r"\1"), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ".skip(2)"), (r"u32::MAX", "7"), (r"u64::MAX", "100000"), (r"\bidx\b", "(idx+1)"),
 (r"\.sort_unstable\(\);", ".len();"), (r"mk_and\(", "mk_or("), (r"mk_or\(", "mk_and("), (r"args\[0\]", "args[args.len()-1]"), (r"\bmin\b(?=,)", "max"), (r"\bmax\b(?=[,)])", "min"),
 (r"=> return (.*),$", "=> return Default::default(),"), (r"\.is_empty\(\)", ".len() == 1"), (r"Some\((\w+)\)$", "None"), (r"\+ offset", ""), (r"return (e|aa|bb|e2|prev|true|false);", "return ExprRef::NO_MATCH;"),
]
def sites():
    out = []
    for f in FILES:
        if ONLY and f != ONLY: continue
        L = open(SRC + "/" + f).read().split("\n")
        dbg = 0
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith("//") or s.startswith("#") or "assert" in s or "debug!" in s or "eprint" in s or "println" in s or s.startswith("use "): continue
            c = l.split(" //")[0]
            for ri, (p, r) in enumerate(RULES):
                for m in re.finditer(p, c):
                    if r == "INC": n = c[:m.start(1)] + str(int(m.group(1)) + 1) + c[m.end(1):]
                    elif r == "DEC": n = c[:m.start(1)] + str(int(m.group(1)) - 1) + c[m.end(1):]
                    else: n = c[:m.start()] + m.expand(r) + c[m.end():]
                    if n != c: out.append((f, i, c, n))
    return sorted(set(out))
def prep(w):
    d = "%s/w%d" % (ROOT, w)
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call("git -C /repo archive --prefix=repo/ HEAD | tar x -C " + d, shell=True)
    if os.path.exists("/repo/Cargo.lock"): shutil.copy("/repo/Cargo.lock", d + "/repo/Cargo.lock")
    shutil.copytree(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness", d + "/harness", ignore=shutil.ignore_patterns("target"))
    t = open(d + "/harness/Cargo.toml").read().replace('"/repo"', '"../repo"')
    open(d + "/harness/Cargo.toml", "w").write(t)
    return d
lock = threading.Lock()
def sh(cmd, cwd, to, w):
    per = os.cpu_count() // W
    cpus = "%d-%d" % (w * per, w * per + per - 1)
    try:
        p = subprocess.run(["taskset", "-c", cpus] + cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to,
                           env=dict(os.environ, CARGO_NET_OFFLINE="true", TMPDIR=ROOT + "/tmp%d" % w), start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-9", "-f", ROOT + "/w%d/" % w])
        return -99, "timeout"
def worker(w, q):
    d = prep(w)
    os.makedirs(ROOT + "/tmp%d" % w, exist_ok=True)
    while True:
        try: f, i, c, n = q.get_nowait()
        except queue.Empty: return
        p = d + "/repo/src/" + f
        base = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:src/" + f], text=True)
        L = base.split("\n"); L[i] = n
        open(p, "w").write("\n".join(L))
        res = None
        rc, o = sh(["cargo", "test", "--offline", "-q", "--tests", "--target-dir", d + "/tt"], d + "/repo", 90, w)
        if rc != 0:
            res = "compile" if "could not compile" in o else ("tests" if rc != -99 else "tests-hang")
        else:
            rc, o = sh(["cargo", "build", "--release", "--offline", "--bin", "dv", "--target-dir", d + "/tc"], d + "/harness", 400, w)
            if rc != 0: res = "harness-build"
            else:
                order = PROPS.get(f, "").split()
                order += [x for x in ALL if x not in order]
                slow = []
                for pr in order:
                    rc, o = sh([d + "/tc/release/dv", "run", pr, "--tier", "quick", "--seed", "1", "--scale", SCALE, "--replays", ROOT + "/tmp%d" % w, "--case-limit", "10"], d, 400, w)
                    if rc == 1:
                        res = "killed " + pr + " " + next((l for l in o.splitlines() if "VIOLATION" in l), "")[:160]; break
                    if rc == -99: slow.append(pr)
                    elif rc not in (0, 2): slow.append(pr + ":rc%d" % rc)
                if res is None: res = "SURVIVED " + " ".join(slow)
        with lock:
            with open(OUT, "a") as h: h.write(json.dumps(dict(file=f, line=i + 1, old=c.strip(), new=n.strip(), res=res)) + "\n")
        open(p, "w").write(base)
S = sites()
random.Random(SEED).shuffle(S)
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
S = [s for s in S if (s[0], s[1] + 1, s[3].strip()) not in done]
print(len(S), "sites; running", min(N, len(S)), flush=True)
q = queue.Queue()
for s in S[:N]: q.put(s)
ts = [threading.Thread(target=worker, args=(w, q)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
