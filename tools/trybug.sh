#!/bin/bash
# trybug.sh ID...: demo on the clean tree, then with the patch: build, demo, stable tests, the property's check; undone afterwards
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  s=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  aux=$(mktemp -d); cp -a $s/. $aux/; rm -f $aux/*.diff $aux/meta.json
  bash $aux/demo.sh >/tmp/demo.clean 2>&1 </dev/null; c=$?
  git apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/build.log 2>&1; b=$?
  bash $aux/demo.sh >/tmp/demo.bug 2>&1 </dev/null; d=$?
  t=skipped
  [ -n "$NOTESTS" ] || t=$(bash /verif/tools/stable.sh | tail -1)
  k=skipped
  [ -n "$NOCHECK" ] || { (cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 /opt/venv/bin/python run.py $prop >/tmp/check.log 2>&1); k="$? $(grep -a -o 'VIOLATION.*' /tmp/check.log | head -1)"; }
  git checkout -q .
  rm -rf $aux
  echo "$id ($prop): demo clean=$c bug=$d build=$b tests=[$t] check=[$k]"
done
