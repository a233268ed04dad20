#!/bin/bash
# Runs every check (or the given ones) and prints exit code and time of each.
cd "$(dirname "$(readlink -f "$0")")/.." || exit 3
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(python3 -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])'))
for i in "${ids[@]}"; do
  t=$(date +%s.%N); ./check $i >/tmp/all.$i.log 2>&1; rc=$?
  printf "%s rc=%d %.1fs %s\n" $i $rc $(echo "$(date +%s.%N)-$t"|bc) "$(grep -E '^(VIOLATION|KNOWN)' /tmp/all.$i.log | cut -c1-150 | tr '\n' ' ')"
done
