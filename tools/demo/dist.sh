#!/bin/bash
# cwd: the repository, built. Exit 0: behaves as it should.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
timeout 280 python3 "$D/demo.py" "$T"
