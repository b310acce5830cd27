#!/bin/bash
# every behaviour-preserving rewrite of every property, in parallel; prints properties with refuted ones
cd /verif; mkdir -p /tmp/ar; ls specs/P*.py | sed 's/.*\(P[0-9]*\).py/\1/' | xargs -P 7 -I{} sh -c "timeout 1500 python3 dev/mut.py {} ref -v > /tmp/ar/{}.txt 2>&1; tail -1 /tmp/ar/{}.txt"
