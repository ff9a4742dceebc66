#!/bin/bash
# tools/seed.sh ID [demo] [tests] [check SEEDS...] : tries a planted change in a scratch copy of /repo.
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$ID; W=/tmp/seed_$ID
rm -rf "/tmp/seed_$ID"; cp -a /repo "$W"
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=/tmp/seeddemo_$ID; rm -rf "/tmp/seeddemo_$ID"; mkdir -p $D; cp $S/* $D/; rm -f $D/*.diff $D/meta.json
cd $W
rm -rf "/tmp/seed_$ID/.git"
while [ $# -gt 0 ]; do
  case $1 in
  demo)
    bash $D/demo.sh > /tmp/seed_$ID.clean.log 2>&1; a=$?
    patch -p1 -s < $S/patch.diff || { echo "$ID: PATCH FAILED"; exit 1; }
    bash $D/demo.sh > /tmp/seed_$ID.bug.log 2>&1; b=$?
    patch -p1 -s -R < $S/patch.diff
    echo "$ID demo clean=$a bug=$b $([ $a = 0 ] && [ $b != 0 ] && echo OK || echo BAD)"; [ $a = 0 ] || tail -5 /tmp/seed_$ID.clean.log;;
  tests)
    patch -p1 -s < $S/patch.diff
    mkdir -p $W/reports; sed -e "s#/repo#$W#g" -e "s#^REPORTS=.*#REPORTS=$W/reports#" /opt/vp/test.sh > $D/test.sh
    bash $D/test.sh $D/out.json > $D/test.log 2>&1; echo "$ID tests: $(tail -1 $D/test.log)"
    python3 - $D/out.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(d):
  for k in ('passed','stable','tests','pass'):
    if k in d: return set(d[k])
st=names(b); ps=names(o)
if st is None or ps is None: print('keys',list(b),list(o))
else: print('missing stable:', sorted(st-ps)[:6])
P
    patch -p1 -s -R < $S/patch.diff;;
  check)
    patch -p1 -s < $S/patch.diff
    VERIF_EVIDENCE_DIR=$D/ev VERIF_REPO=$W $V/run.sh ${CHECK:-$PROP} quick --seed ${2:-1} > $D/check.log 2>&1; r=$?
    echo "$ID check ${CHECK:-$PROP} seed ${2:-1}: exit $r $([ $r = 1 ] && echo CAUGHT || echo MISSED)"; grep -m2 "\] " $D/check.log | cut -c1-220
    [ -n "$2" ] && shift
    patch -p1 -s -R < $S/patch.diff;;
  esac
  shift
done
rm -rf "/tmp/seed_$ID"
