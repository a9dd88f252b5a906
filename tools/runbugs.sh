#!/bin/bash
# Run the checks against planted bugs: tools/runbugs.sh [id...]
# (Each in a copy of its own: see isolated.sh.)
cd /verif || exit 1
ids=("$@")
[ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
    prop=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
    start=$(date +%s)
    tools/isolated.sh bash -c "git -C /repo apply '/verif/seeded/$id/patch.diff' && timeout 900 python3 check.py '$prop' quick" >"/tmp/bug-$id.out" 2>&1
    echo "$id $prop rc=$? $(( $(date +%s) - start ))s $(grep -c ^VIOLATION "/tmp/bug-$id.out")"
done
