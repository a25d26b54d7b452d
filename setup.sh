#!/bin/bash
# Offline sanity check of the toolchain the monitors need; every check builds its own monitors from /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
for t in g++-14 python3; do command -v $t >/dev/null || { echo "missing $t" >&2; exit 1; }; done
test -f /opt/pyre/lib/libjournal.so -o -f /opt/pyre/lib/libjournal.a
python3 -c 'import sys; sys.path.insert(0, "bin"); import registry; print(len(registry.CHECKS), "checks registered")'
