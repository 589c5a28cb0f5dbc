#!/bin/bash
# Runs, for every planted bug (or the named ones), the check of its property against a scratch copy with the bug.
cd "$(dirname "$0")/.." || exit 2
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
    w=$(mktemp -d /tmp/plantrun.XXXXXX)
    cp -a /repo "$w/repo"
    if ! git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff"; then echo "$id DOES-NOT-APPLY"; rm -rf "$w"; continue; fi
    p=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
    s=$(date +%s)
    out=$(VERIF_REPO="$w/repo" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER=quick /opt/venv/bin/python check.py "$p" 2>&1); rc=$?
    echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -m1 -E "^run |held on|Error" | cut -c1-200)"
    rm -rf "$w"
done
