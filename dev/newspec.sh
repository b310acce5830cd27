#!/bin/bash
# drafts specs/$1.py from dev/lists/$1 and reports how far the references explain the tree
cd /verif; head -3 specs/P08.py | grep -v "^@" > /dev/null
python3 dev/tools_mkspec.py dev/lists/$1 > specs/$1.py && timeout 800 python3 check.py $1 | cut -c1-250 | tail -${2:-12}
