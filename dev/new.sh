#!/bin/bash
# new.sh Pxx ... : draft, then mutants and rewrites; prints what is not refuted
cd /verif
for p in "$@"; do ( [ -f specs/$p.py ] && [ -z "$REDRAFT" ] || bash dev/newspec.sh $p 8; timeout 850 python3 dev/mut.py $p mut -v > /tmp/m_$p.txt 2>&1 & timeout 850 python3 dev/mut.py $p ref -v > /tmp/r_$p.txt 2>&1 & wait ) & done; wait
for p in "$@"; do python3 check.py $p | tail -1; python3 check.py $p -v | grep -A2 "^undec\|^refuted" | cut -c1-260 | head -20; echo "== $p"; grep -v "^ .*\[\|^ *ref" /tmp/m_$p.txt | grep -v "'refuted': [0-9]*}$\|{}$"| cut -c1-190; echo "-- ref $p"; grep -A3 "refuted\|undecided" /tmp/r_$p.txt | cut -c1-250 | head -${N:-12}; done
