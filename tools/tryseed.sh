#!/bin/bash
# tryseed.sh ID...: run the property's quick check against each planted bug, in a scratch copy
for id in "$@"; do
 s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
 d=$(mktemp -d /tmp/try_XXXX); cp -a /repo "$d/repo"; git -C "$d/repo" apply $s/patch.diff || echo APPLY-FAILED
 t=$(date +%s); SYMX_SRC=$d/repo/src /verif/check.sh $p quick > $d/out 2>&1; rc=$?
 echo "$id $p rc=$rc $(( $(date +%s)-t ))s $(grep -c '^VIOLATION' $d/out) viol; $(grep -m1 -E 'VIOLATION|Error' $d/out)"
 [ $rc = 1 ] || tail -5 $d/out
 rm -rf "$d"
done
