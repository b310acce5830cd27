#!/bin/bash
# rep.sh Pxx ...: what the mutants and rewrites of the last dev/new.sh run left open
for p in "$@"; do echo "== $p"; grep -v "^ .*\[\|^ *ref" /tmp/m_$p.txt | grep -v "'refuted': [0-9]*}$\|{}$"| cut -c1-190; echo "-- ref $p"; grep -A3 "refuted\|undecided" /tmp/r_$p.txt | cut -c1-250 | head -${N:-12}; done
