#!/bin/bash
# Runs the checks against the planted changes: trycheck.sh [id...]; ALL=1 runs
# every check for each, otherwise only that of the property.
cd "$(dirname "$0")/.." || exit 1
ids=("$@"); [ $# -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
	prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	props=$prop; [ -n "${ALL:-}" ] && props=$(python3 -c "print(' '.join('C%02d'%i for i in range(1,26)))")
	git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
	for p in $props; do
		s=$(date +%s)
		out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./run.sh "$p" quick 2>&1); rc=$?
		echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-150)"
	done
	git -C /repo checkout -q -- .
done
