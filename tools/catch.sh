#!/bin/bash
# tools/catch.sh [id...]: applies each planted bug to a scratch copy of /repo and runs its property's quick check there
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch_XXXX); cp -a /repo/. $w/; (cd $w && git apply /verif/seeded/$d/patch.diff) || echo "APPLY FAILS $d"
  s=$(date +%s); out=$(GOSYM_REPO=$w timeout 900 bin/gosym check -prop $p -tier ${TIER:-quick} 2>&1); rc=$?
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '^VIOLATION' | head -1 | cut -c1-120)"
  [ -n "$V" ] && echo "$out" | cut -c1-220 | head -40
  rm -rf "$w"
done
