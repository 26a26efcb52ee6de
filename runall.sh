#!/bin/bash
# run every check (or those named) one after another; prints exit codes and times
cd "$(dirname "$0")"
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21}; do
  s=$(date +%s); o=$(python3 check.py $p 2>&1); rc=$?; echo "$p rc=$rc $(( $(date +%s) - s ))s $(echo "$o" | tail -2 | cut -c1-300)"
done
