#!/bin/bash
# each planted bug (or those named) in a scratch copy: runs the check of its property there
cd /verif
one() {
  d=$1; w=$(mktemp -d /tmp/sc_XXXXXX); cp -a /repo/pybrain $w/
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  (cd $w && git init -q . && git apply /verif/seeded/$d/patch.diff) || echo "$d: does not apply"
  out=$(SA_REPO=$w python3 check.py $p 2>&1); rc=$?
  echo "$d $p rc=$rc $(echo "$out" | grep -v '^KNOWN' | head -1 | cut -c1-200)"
  rm -rf "$w"
}
export -f one
echo ${@:-$(ls seeded)} | tr ' ' '\n' | xargs -P 4 -I{} bash -c 'one {}'
