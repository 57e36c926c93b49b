#!/bin/bash
# seedcheck.sh ID...: for each planted bug: demo on the clean tree, apply, build, tests, demo, check, undo.
# Development aid only; no registered check uses it.  env NOBUILD=1 skips build+tests, NOCHECK=1 skips the check
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "dirty /repo"; exit 2; }
for id in "$@"; do
  S=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  T=$(mktemp -d); cp -a $S/. $T/; rm -f $T/*.diff $T/meta.json
  timeout 300 bash $T/demo.sh >/tmp/seed.$id.clean 2>&1; c=$?
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=-; t=-
  if [ -z "$NOBUILD" ]; then
    bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1; b=$?
    bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.test 2>&1
    t=$(python3 - <<P
import json
a=json.load(open('/tmp/seed.$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x,k):
    v=x.get(k,[]); return set(v if isinstance(v,list) else v.keys())
want=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
print('ok' if want and want<=names(a,'passed') else 'FAIL '+str(sorted(want-names(a,'passed')))[:200])
P
)
  fi
  timeout 300 bash $T/demo.sh >/tmp/seed.$id.demo 2>&1; d=$?
  k=-
  if [ -z "$NOCHECK" ]; then
    s=$(date +%s); VERIF_SEED=1 timeout 900 python3 /verif/check.py $p quick >/tmp/seed.$id.check 2>&1; k="$? $(grep -m1 VIOLATION /tmp/seed.$id.check | cut -c1-120) $(( $(date +%s)-s ))s"
  fi
  git checkout -q -- .
  rm -rf "$T"
  echo "$id [$p] clean-demo=$c build=$b tests=$t demo=$d check=$k"
done
