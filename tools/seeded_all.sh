#!/bin/bash
# seeded_all.sh [bug ids]: run the check of its property against every planted bug, one line per bug.
for b in ${@:-$(ls /verif/seeded)}; do
    s=$(date +%s)
    o=$(bash /verif/tools/seeded.sh $b 2>&1)
    if echo "$o" | grep -q '^VIOLATION'; then r=caught; else r=MISSED; fi
    echo "$r $b $(( $(date +%s) - s ))s $(echo "$o" | grep -v '^VIOLATION' | tail -n 1 | cut -c1-160)"
done
