#!/bin/bash
# run.sh OUT NAME [PROP...]: the existing tests and the checks on a refactored copy OUT/NAME; prints what is not quiet
out=$1; n=$2; shift 2; d=$out/$n
sed "s#/repo#$d#g" /opt/vp/build.sh > $d.build.sh; sed "s#/repo#$d#g" /opt/vp/test.sh > $d.test.sh
bash $d.build.sh > $d.b 2>&1 || { echo "$n: BUILD"; grep -v == $d.b | head; exit; }
bash $d.test.sh $d.json >/dev/null 2>&1
python3 - $d.json <<'P' || { echo "$n: TESTS"; exit; }
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed']); print(sorted(m)[:4]) if m else 0
sys.exit(bool(m))
P
if [ $# = 0 ]; then case $n in g*) set -- C12 C13 C14 C22 C18;; *) set -- C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C18 C20 C21;; esac; fi
mkdir -p $d.out
for p in "$@"; do REPO=$d OUT=$d.out VERIF_SEED=${SEED:-1} /verif/check.sh $p quick > $d.$p 2>&1; rc=$?; [ $rc = 0 ] || { echo "$n: $p rc=$rc"; head -4 $d.$p | cut -c1-400; }; done
echo "$n: done"
