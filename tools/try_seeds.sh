#!/bin/bash
# try_seeds.sh [pattern [seed]]: run the check of each planted bug's property against a scratch copy of /repo with the bug
cd "$(dirname "$0")/.."
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
for d in seeded/${1:-*}/; do
    id=$(basename "$d"); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C "$w/repo" checkout -q -- .
    git -C "$w/repo" apply "$PWD/$d/patch.diff" || { echo "$id: does not apply"; continue; }
    out=$(VERIF_SEED=${2:-1} VT_REPO="$w/repo" ./run.py "$p" quick 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "VIOLATION property=$p " <<<"$out"; then echo "$id: caught ($p)"; else echo "$id: MISSED ($p, exit $rc) $(tail -1 <<<"$out")"; fi
done
