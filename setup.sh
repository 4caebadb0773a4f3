#!/bin/bash
# Every check builds what it needs from /repo's current tree; this only makes sure it can.
set -e
cd "$(dirname "$0")"
for t in g++ mpicxx.mpich python3-vt; do command -v $t >/dev/null || PATH=$PATH:/opt/vp/bin command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
python3-vt -c 'import numpy'
mkdir -p build evidence replay
