#!/usr/bin/env python3
"""Try a planted bug in a scratch copy: builds, stable tests, demo on both trees.  usage: seedtest.py ID..."""
import json, os, shutil, subprocess, sys
V = "/verif/seeded"; S = "/tmp/w/seedrepo"; ok = True
base = json.load(open("/opt/vp/BASELINE.json"))
for i in sys.argv[1:]:
    d = os.path.join(V, i)
    if os.path.exists(S): shutil.rmtree(S)
    shutil.copytree("/repo", S, symlinks=True, ignore=shutil.ignore_patterns("_build"))
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
    def demo():
        p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=S, capture_output=True, text=True, timeout=300)
        return p.returncode, (p.stdout + p.stderr)[-400:]
    r0 = demo()
    a = subprocess.run(["git", "-C", S, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stderr); ok = False; continue
    r1 = demo()
    good = r0[0] == 0 and r1[0] not in (0, 4)
    print(i, "demo clean", r0[0], "patched", r1[0], "OK" if good else "BAD")
    if not good: print(r0[1], "\n---\n", r1[1]); ok = False
shutil.rmtree(S, ignore_errors=True)
sys.exit(0 if ok else 1)
