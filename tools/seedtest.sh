#!/bin/bash
# usage: tools/seedtest.sh ID...   for each planted bug: build, tests, demo, then its property's check (and undo)
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in "$@"; do
  s=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  if [ -z "$SKIPBUILD" ]; then
    bash /opt/vp/build.sh >/tmp/seed.build 2>&1; t0=$(mktemp -d); cp -a $s/. $t0/; rm -f $t0/*.diff $t0/meta.json
    bash $t0/demo.sh >/tmp/seed.demo0 2>&1; d0=$?
  fi
  git apply $s/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  if [ -z "$SKIPBUILD" ]; then
    bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || echo "$id: BUILD FAILED"
    bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
    nf=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
def names(x,k):
    v=x.get(k) or x.get('tests') or []
    return set(v if isinstance(v,list) else v.keys())
base=names(b,'passed') or names(b,'stable'); ok=names(o,'passed')
print(len(base-ok))
P
)
    bash $t0/demo.sh >/tmp/seed.demo1 2>&1; d1=$?
    rm -rf "$t0"
  fi
  if [ -z "$NOCHECK" ]; then
  ( cd /verif; VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 -m skv ${p,,} >/tmp/seed.check 2>&1 ); c=$?; fi
  git checkout -q -- .
  echo "$id property=$p demo_clean=$d0 failing_tests=$nf demo_patched=$d1 check=$c $(grep -m1 -B1 VIOLATION /tmp/seed.check | head -1 | cut -c1-160)"
done
[ -z "$SKIPBUILD" ] && bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf /verif/replays
