#!/usr/bin/env python3
"""Try banks of mutations of mito against the checks, in scratch copies (never in /repo).
usage: mutate.py [-j N] BANK.py [name-substring..]
A bank is python that calls M(name, "PROP PROP..", file, old, new [, file, old, new ..]); `old` must occur (the first occurrence
is replaced; `old` may be (text, n) for the n-th one).  With ANY=1 the checks named are tried until one reports it.  Prints for each mutant which of the checks reports it."""
import os, shutil, subprocess, sys, time, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_DIR", "/tmp/w/mut")
args = sys.argv[1:]; jobs = 3
if args and args[0] == "-j": jobs = int(args[1]); args = args[2:]
bank, names = args[0], args[1:]
muts = []
def M(name, props, *edits):
    muts.append((name, props.split(), [edits[i:i+3] for i in range(0, len(edits), 3)]))
exec(open(bank).read(), {"M": M})
muts = [m for m in muts if not names or any(n in m[0] for n in names)]
q = queue.Queue()
for m in muts: q.put(m)
out = threading.Lock(); missed = []
def say(s):
    with out: print(s, flush=True)
def worker(k):
    d = f"{W}/{os.getpid()}_{k}"; repo, ver = d + "/repo", d + "/verif"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    shutil.copytree(V, ver, ignore=shutil.ignore_patterns(".git", ".cache", "evidence", "seeded", "replays"))
    while True:
        try: name, props, edits = q.get_nowait()
        except queue.Empty: break
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
        bad = None
        for f, old, new in edits:
            p = f"{repo}/lib/mito/{f}" if os.path.exists(f"{repo}/lib/mito/{f}") else f"{repo}/{f}"
            n = 1
            if isinstance(old, tuple): old, n = old
            try: s = open(p).read()
            except OSError as e: bad = str(e); break
            i = -1
            for _ in range(n): i = s.find(old, i + 1)
            if i < 0: bad = f"text not found in {f}: {old[:60]!r}"; break
            open(p, "w").write(s[:i] + new + s[i+len(old):])
        if bad: say(f"{name:34} BAD-MUTANT {bad}"); continue
        for pid in props:
            t = time.time()
            r = subprocess.run(["nice", "python3", ver + "/bin/check.py", pid], cwd=ver, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=repo))
            o = r.stdout + r.stderr
            ev = [l for l in o.splitlines() if "VIOLATION" in l or "rule" in l.lower() or "error:" in l]
            what = (ev[0] if ev else o.strip().splitlines()[-1] if o.strip() else "")[:150]
            st = {0: "MISSED", 1: "caught"}.get(r.returncode, f"exit{r.returncode}")
            if st != "caught" and not (os.environ.get("ANY") and pid != props[-1] and st == "MISSED"): missed.append((name, pid, st))
            say(f"{name:34} {pid} {st:7} {time.time()-t:5.0f}s {what}")
            if os.environ.get("ANY") and st != "MISSED": break
        for b in (".cache",):
            if shutil.disk_usage("/tmp").free < 20e9: shutil.rmtree(f"{ver}/{b}", ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(min(jobs, len(muts)))]
[t.start() for t in ts]; [t.join() for t in ts]
print("NOT CAUGHT:", *missed, sep="\n  ")
