#!/bin/bash
# runs single cases twice and compares their logs (development aid)
p=$1; shift
cd "$(dirname "$0")/.."
for i in ${@:-0 1 2 3 7}; do
  python3 run.py $p --case $i -v 2>&1 | sed -E 's#/tmp/verif-[A-Z0-9]+-[0-9]+##g; s/[0-9.]+s$//' > /tmp/det.a
  python3 run.py $p --case $i -v 2>&1 | sed -E 's#/tmp/verif-[A-Z0-9]+-[0-9]+##g; s/[0-9.]+s$//' > /tmp/det.b
  cmp /tmp/det.a /tmp/det.b && echo "$p $i same $(wc -l < /tmp/det.a) lines"
done
