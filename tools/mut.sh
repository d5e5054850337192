#!/bin/bash
# mut.sh PROP[,PROP] FILE 's/perl/expr/' : apply a perl edit to /repo/FILE, run checks, undo
cd /repo || exit 9
perl -0pi -e "$3" "$2"
if git diff --quiet; then echo "NO CHANGE: $3"; exit 9; fi
git diff -U0 | grep '^[+-]' | grep -v '^+++\|^---' | head -${LINES_SHOWN:-6}
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
bp=set(b.get('stable') or b.get('tests') or []); tp=set(t.get('passed') or [])
print('   tests: missing', sorted(bp-tp)[:4])
P
fi
for p in ${1//,/ }; do timeout 900 python3 /verif/check.py $p; echo "   $p rc=$?"; done
git checkout -q -- .
