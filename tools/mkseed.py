#!/usr/bin/env python3
"""Make a planted-bug folder.  usage: mkseed.py ID PROPERTY 'needs' 'breaks' [--petsc]; takes the working-tree diff of /tmp/w/plant
and /tmp/w/demo.cc"""
import json, os, shutil, subprocess, sys
i, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/w/plant", "diff"], capture_output=True, text=True).stdout
assert diff
open(d + "/patch.diff", "w").write(diff)
shutil.copy("/tmp/w/demo.cc", d + "/demo.cc")
shutil.copy("/verif/lib/compat.h", d + "/compat.h")
petsc = "--petsc" in sys.argv
san = "--asan" in sys.argv
open(d + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd = the repository, after it was built
HERE=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 ASAN_OPTIONS=detect_leaks=0
g++-14 -std=c++23 -w -O1 %s -DWITH_MPI -DWITH_PETSC -DWITH_METIS -I"$R/lib" \\
  -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include \\
  -isystem /usr/include/petsc -isystem /opt/pyre/include -include "$HERE/compat.h" \\
  "$HERE/demo.cc" %s -o "$W/demo" -L/opt/pyre/lib -ljournal -lpyre -Wl,-rpath,/opt/pyre/lib -Wl,--as-needed \\
  -lpetsc -lmpi -lmpi_cxx -lmetis -lpthread || exit 4
cd "$W" && timeout 120 ./demo
''' % ("-fsanitize=address,undefined -g1 -fno-sanitize=vptr" if san else "", '$(find "$R/lib/mito" -name "*.cc")' if petsc else ""))
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
print("made", d)
