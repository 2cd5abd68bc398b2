#!/bin/bash
# trybug.sh SEED-ID [PROP]: apply a planted change to /repo, run the check of its property, undo it.
cd "$(dirname "$0")/.." || exit 3
id=$1
prop=${2:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 3
s=$(date +%s)
out=$(python3 check.py "$prop" 2>&1); rc=$?
git -C /repo checkout -- .
echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c '^VIOLATION') violation; $(echo "$out" | tail -2 | cut -c1-${W:-220} | tr '\n' ' ')"
