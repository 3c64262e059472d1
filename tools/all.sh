#!/bin/bash
# all.sh [quick|thorough] [ID...]: run the checks, one line each, failures in full.
cd "$(dirname "${BASH_SOURCE[0]}")/.."
L=$(mktemp)
tier=${1:-quick}; shift
for id in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20}; do
	./check.sh $id $tier > "$L" 2>&1; rc=$?
	if [ $rc = 0 ]; then tail -1 "$L"; else echo "$id: exit $rc"; cut -c1-400 "$L" | head -20; fi
done
rm -f "$L"
