#!/bin/bash
# seedtest.sh [-t] [-n] ID...: try planted changes in a private copy of /repo (mount namespace). -t: run the test suite; -n: skip the check
T=0; N=0
while getopts tn o; do case $o in t) T=1;; n) N=1;; esac; done; shift $((OPTIND-1))
for id in "$@"; do
  d=${SEEDROOT:-/verif/seeded}/$id; w=/tmp/seedtest.$id.$$
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  mkdir -p $w/work $w/demo; cp -a /repo $w/repo; cp -a /verif $w/verif; rm -rf $w/verif/seeded; cp -a $d/. $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
  cp $d/patch.diff $w/patch
  (cd /repo; timeout 300 bash $w/demo/demo.sh >$w/clean.log 2>&1; echo $? >$w/clean.rc)
  cat >$w/run.sh <<R
mount --bind $w/repo /repo; mount --bind $w/work /opt/vp/work; mount --bind $w/verif /verif
cd /repo
git apply $w/patch || { echo "$id: PATCH DOES NOT APPLY"; exit; }
bash /opt/vp/build.sh >$w/build.log 2>&1 || echo "$id: BUILD FAILS"
[ $T = 1 ] && { bash /opt/vp/test.sh $w/out.json >/dev/null 2>&1; python3 -c "
import json
s=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=json.load(open('$w/out.json'))['passed'];m=sorted(set(s)-set(p));print('$id: tests', 'ok' if not m else m)"; }
timeout 300 bash $w/demo/demo.sh >$w/demo.log 2>&1; r=\$?
echo "$id: demo clean=\$(cat $w/clean.rc) patched=\$r  \$(tail -1 $w/demo.log | cut -c1-150)"
[ "\$(cat $w/clean.rc)" = 0 ] || tail -5 $w/clean.log
if [ $N = 0 ]; then cd /verif; VERIF_SEED=1 timeout 900 ./check.sh $prop >$w/check.log 2>&1; r=\$?; echo "$id: check $prop exit=\$r \$(grep -c VIOLATION $w/check.log) violations; \$(tail -1 $w/check.log | cut -c1-200)"; python3 - <<P
import glob,json
for f in sorted(glob.glob('/verif/replays/*'))[:2]: 
    d=json.load(open(f)); print('   ',d['key'],d.get('what','')[:160])
P
fi
R
  unshare -Urm bash $w/run.sh
  rm -rf "$w"
done
