#!/bin/bash
# seed.sh <id>... : confirm planted changes in scratch copies: demo passes on the unchanged tree, patch applies and builds,
# stable tests pass, demo fails; then run the check of the property (SEED_CHECKS overrides) against the copy.
set -u
S=/tmp/sd; mkdir -p $S
cp_tree() { rm -rf "$1"; mkdir -p "$1"; (cd /repo && git archive HEAD) | tar x -C "$1"; for l in lib; do [ -e "/repo/$l" ] && cp -a /repo/$l "$1"/; done
  mkdir -p "$1"_vp; for f in build.sh test.sh run_demo.py results.py; do sed "s#/repo\b#$1#g; s#/opt/vp#$1_vp#g" /opt/vp/$f > "$1"_vp/$f; done; }
head=$(git -C /repo rev-parse HEAD)
if [ "$(cat $S/base.head 2>/dev/null)" != "$head" ]; then cp_tree $S/base; bash $S/base_vp/build.sh > $S/base.log 2>&1 || { echo "base build failed"; exit 3; }; echo "$head" > $S/base.head; fi
one() {
  id=$1; d=/verif/seeded/$id; w=$S/$id; cp_tree $w
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf ${w}_demo; mkdir ${w}_demo; cp -a $d/. ${w}_demo/; rm -f ${w}_demo/*.diff ${w}_demo/meta.json
  (cd $S/base && timeout 300 bash ${w}_demo/demo.sh > ${w}_demo/base.out 2>&1); b=$?
  (cd $w && git init -q . 2>/dev/null; git apply $d/patch.diff) || { echo "$id: patch does not apply"; return; }
  bash ${w}_vp/build.sh > $w.build 2>&1 || { echo "$id: build failed"; tail -5 $w.build; return; }
  (cd $w && timeout 300 bash ${w}_demo/demo.sh > ${w}_demo/mut.out 2>&1); m=$?
  t=skipped
  if [ -z "${SEED_NOTEST:-}" ]; then
    bash ${w}_vp/test.sh $w.json > $w.test 2>&1
    t=$(python3 -c "
import json;o=json.load(open('$w.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable']
print('ok' if set(s)<=set(o['passed']) else 'FAIL '+str(set(s)-set(o['passed'])))")
  fi
  r=
  if [ -z "${SEED_NOCHECK:-}" ]; then for p in ${SEED_CHECKS:-$prop}; do
    (cd /verif; VERIF_SEED=${VERIF_SEED:-1} PBT_BUILD=${w}_b PBT_EVIDENCE=$w.ev PBT_REPO=$w timeout 900 python3 run.py $p > $w.chk.$p 2>&1); c=$?
    r="$r $p=$c($(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' $w.chk.$p))"; done; fi
  ok=BAD; [ $b = 0 ] && [ $m != 0 ] && [ "$t" = ok -o "$t" = skipped ] && ok=valid
  echo "$id: $ok base=$b mut=$m tests=$t checks:$r"
  [ -z "${SEED_KEEP:-}" ] && rm -rf $w ${w}_b ${w}_vp $w.json $w.test $w.build
}
export -f one cp_tree 2>/dev/null; export S
for i in "$@"; do while [ $(jobs -rp | wc -l) -ge ${SEED_JOBS:-4} ]; do sleep 1; done; one $i & done; wait
