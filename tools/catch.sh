#!/bin/bash
# usage: catch.sh ID...   runs the property's quick check on a scratch copy of the repository with seeded/ID applied
root=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    d=$root/seeded/$id
    [ -f "$d/patch.diff" ] || continue
    wt=$(mktemp -d /dev/shm/catch-XXXXXX) && cp -a /repo "$wt/repo" && git -C "$wt/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
    s=$(date +%s)
    out=$(VERIF_REPO=$wt/repo bash "$root/run.sh" "$p" 2>&1); rc=$?
    e=$(( $(date +%s) - s ))
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$id: caught (${e} s)"; else echo "$id: MISSED rc=$rc (${e} s) $(tail -3 <<<"$out")"; fi
    rm -rf "$wt"
done
