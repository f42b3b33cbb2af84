#!/bin/bash
# mut.sh CHECKS FILE 'python expression on s' : try a change on /repo and undo it
set -u
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
python3 - "$2" "$3" <<'P' || exit 2
import sys
f='/repo/'+sys.argv[1]; s=open(f).read(); o=s
g={'s':s}; exec(sys.argv[2],g); s=g['s']
assert s!=o,'no change'
open(f,'w').write(s)
P
for c in $1; do (cd /verif; python3 run.py $c 2>&1 | grep -a "^VIOLATION\|^  case\|^C[0-9]*:\|^KNOWN\|^build" | cut -c1-400 | head -${LINES_MAX:-6}); done
