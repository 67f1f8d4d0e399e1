#!/bin/bash
# tools/regress.sh [commit...]: takes each "fixed" defect back in a scratch copy of /repo and checks that
# its property's quick check reports it again
cd /verif
python3 - "$@" <<'P' > /tmp/regress.list
import json,sys
k=json.load(open('known_findings.json'))
for e in k['fixed']:
    c=e.get('commit') if isinstance(e,dict) else None
    p=e.get('property') if isinstance(e,dict) else None
    if c is None:
        w=e.split(); p=w[1].split('=')[1]; c=w[2]
    if len(sys.argv)<2 or c in sys.argv[1:]: print(c,p)
P
while read c p; do
  w=$(mktemp -d /tmp/regress_XXXX); cp -a /repo/. $w/
  if ! (cd $w && git update-index -q --refresh; git diff $c $c~1 | git apply -3 2>/dev/null); then echo "$c $p: does not revert"; rm -rf "$w"; continue; fi
  s=$(date +%s); out=$(GOSYM_REPO=$w timeout 900 bin/gosym check -prop $p -tier quick 2>&1); rc=$?
  echo "$c $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep '^VIOLATION' | head -1 | cut -c1-100)"
  rm -rf "$w"
done < /tmp/regress.list
