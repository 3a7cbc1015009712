#!/bin/bash
# try.sh <patch file> <ID>... : runs checks against a patched copy of /repo (development aid); TRY_ARGS are passed on
set -e
P="$1"; shift; V="$(cd "$(dirname "$0")/.." && pwd)"
D=${TRY_DIR:-/tmp/try_repo}; N=$D.new
rm -rf "$N"; mkdir -p $N $D
cd /repo && git archive HEAD | tar x -C $N
cd $N && git init -q . && git apply "$P" && rm -rf "$N/.git"
# only files that differ get a new date, so that builds are neither stale nor complete
python3 - $N $D <<'PY'
import sys, os, shutil, filecmp
n, d = sys.argv[1:]
want = set()
for r, _, fs in os.walk(n):
    for f in fs:
        a = os.path.join(r, f); rel = os.path.relpath(a, n); b = os.path.join(d, rel); want.add(rel)
        if not os.path.exists(b) or open(a, 'rb').read() != open(b, 'rb').read():
            os.makedirs(os.path.dirname(b), exist_ok=True); shutil.copyfile(a, b)
for r, _, fs in os.walk(d):
    for f in fs:
        p = os.path.join(r, f)
        if os.path.relpath(p, d) not in want: os.unlink(p)
PY
cd "$V"
for id in "$@"; do python3 check.py $id --repo $D $TRY_ARGS && s=0 || s=$?; echo "== $id exit $s"; done
