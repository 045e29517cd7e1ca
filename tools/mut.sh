#!/bin/bash
# try a change by hand: tools/mut.sh FILE(relative to /repo) SED-SCRIPT PID... ; always undone
R=${VERIF_REPO:-/repo}; f=$R/$1; s=$2; shift 2
cp "$f" /tmp/mut.orig; sed -i -E "$s" "$f"
if cmp -s "$f" /tmp/mut.orig; then echo "NO CHANGE"; exit 2; fi
git -C $R diff --stat | tail -1
for p in "$@"; do python3 "$(dirname "$0")/../check.py" $p | cut -c1-${W:-250} | tail -${N:-2}; done
cp /tmp/mut.orig "$f"; git -C $R status --short
