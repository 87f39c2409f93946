#!/bin/bash
# usage: seedtest.sh [--notest] ID...   confirm planted bugs in scratch copies of /repo: demo on clean and patched tree, stable tests
NT=0; [ "$1" = --notest ] && { NT=1; shift; }
for ID in "$@"; do
S=/verif/seeded/$ID
C=$(mktemp -d /tmp/seed_XXXXXX)
git clone -q /repo "$C/repo"; R=$C/repo
cp -a "$S" "$C/demo"; rm -f "$C"/demo/*.diff "$C"/demo/meta.json
export MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1
(cd "$R" && PYTHONPATH=$R timeout 300 bash "$C/demo/demo.sh" >"$C/clean.log" 2>&1); A=$?
if ! git -C "$R" apply "$S/patch.diff" 2>"$C/apply.log"; then echo "$ID: PATCH DOES NOT APPLY"; cat "$C/apply.log"; rm -rf "$C"; continue; fi
(cd "$R" && PYTHONPATH=$R timeout 300 bash "$C/demo/demo.sh" >"$C/bad.log" 2>&1); B=$?
T="not run"
if [ $NT = 0 ]; then
  sed -e "s#/repo#$R#g" -e "s#/opt/vp/reports#$C/reports#g" -e "s#-n 8#-n 3#" /opt/vp/test.sh > "$C/test.sh"
  bash "$C/test.sh" "$C/out.json" >"$C/test.log" 2>&1
  T=$(python3 - "$C/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open(sys.argv[1]))['passed'])
m=[x for x in b if x not in o]; print("stable ok" if not m else "MISSING %s"%m)
P
)
fi
OK=BAD; [ $A = 0 ] && [ $B != 0 ] && OK=good
echo "$ID: demo clean=$A patched=$B ($OK) tests: $T"
[ $OK = BAD ] && { tail -5 "$C/clean.log"; echo ---; tail -5 "$C/bad.log"; }
rm -rf "$C" "/opt/vp$C"; rmdir /opt/vp/tmp 2>/dev/null
done
