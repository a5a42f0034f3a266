#!/bin/bash
# tools/seedcheck.sh ID... : confirms planted changes (demo passes without / fails with; builds; stable tests pass; check catches)
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo $t/repo
  cp -a $d $t/demo
  (cd $t/repo && bash $t/demo/demo.sh) >$t/d0 2>&1; r0=$?
  if ! git -C $t/repo apply $d/patch.diff; then echo "$id PATCH FAILS"; rm -rf "$t"; continue; fi
  (cd $t/repo && bash $t/demo/demo.sh) >$t/d1 2>&1; r1=$?
  VERIF_REPO=$t/repo timeout 900 python3-vt run.py check $prop > $t/c 2>&1; rc=$?
  git -C /repo diff --quiet && git -C /repo apply $d/patch.diff && bash /opt/vp/build.sh >$t/b 2>&1; rb=$?
  timeout 240 bash /opt/vp/test.sh $t/t.json >/dev/null 2>&1
  git -C /repo checkout -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  miss=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('$t/t.json'))
def names(x):
    for k in ('passed','stable','tests'):
        if k in x: return set(x[k])
    return set(x)
print(sorted(names(b)-names(r))[:4])
P
)
  echo "$id [$prop] demo: $r0 -> $r1  build $rb  broken stable tests: $miss  check rc=$rc $(grep -o 'VIOLATION.*' $t/c | head -1 | cut -c1-60) $(grep -m1 -o 'counterexample in.*' $t/c | cut -c1-120)"
  [ $r0 = 0 ] || head -c 600 $t/d0
  [ $r1 = 0 ] && head -c 300 $t/d1
  [ $rc = 1 ] || head -c 900 $t/c
  rm -rf "$t"
done
