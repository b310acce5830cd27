#!/bin/bash
# all checks on the current tree, in parallel; prints anything that is not quiet
cd /verif
ls specs/P*.py rules/P*.py 2>/dev/null | sed 's/.*\///; s/.py//' | sort -u > /tmp/allprops
xargs -P 7 -I{} sh -c 'timeout 900 python3 check.py {} > /tmp/c_{}.txt 2>&1; echo "{} rc=$?" >> /tmp/c_{}.txt' < /tmp/allprops
for p in $(cat /tmp/allprops); do tail -n 2 /tmp/c_$p.txt | head -1 | grep -v "refuted 0, undecided 0" ; tail -n 1 /tmp/c_$p.txt | grep -v "rc=0"; grep -H "VIOLATION" /tmp/c_$p.txt; done | cut -c1-200
