#!/bin/bash
# Runs the same run numbers of every check with different worker counts and compares all trace hashes.
# usage: tools/determinism.sh [RUNS [SEED]]
set -u
cd "$(dirname "$0")/.."
n=${1:-300} seed=${2:-1}
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp known_findings.txt "$d/"
rc=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20; do
  for w in 6 1; do
    target/xsim/debug/xsim check $p --runs $n --seed $seed --secs 600 --workers $w --dir "$d" --hashes "$d/$p.$w" >"$d/log" 2>&1 || { echo "$p workers=$w: exit $?"; tail -3 "$d/log"; }
  done
  if cmp -s "$d/$p.6" "$d/$p.1"; then echo "$p identical ($(wc -l <"$d/$p.6") runs)"; else echo "$p DIFFERS: $(diff "$d/$p.6" "$d/$p.1" | head -3 | tr '\n' ' ')"; rc=1; fi
done
exit $rc
