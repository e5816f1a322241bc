#!/bin/bash
# run_seeded.sh [NAME...]: runs the check of its property against each planted bug; prints one line per bug.
cd /verif/seeded
[ $# = 0 ] && set -- *
for n in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
    s=$(date +%s)
    echo "$n $(/verif/tools/try_patch.sh /verif/seeded/$n/patch.diff $p) [$(( $(date +%s) - s )) s]"
done
