#!/bin/bash
# Builds what the checks need besides /repo: the disk shim and, if the one in
# /repo is missing or stale, the Cython extension (both into /verif/.build).
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, 'sim')
import boot
print(boot.build_shim())
print(boot.build_ext())
P
