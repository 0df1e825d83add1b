#!/bin/bash
# usage: seed_try.sh DIR [check]: confirm a planted bug in a scratch copy (kept in /tmp/seedrepo):
# demo passes unpatched, patch applies, builds, stable tests pass, demo fails; with "check", run the property's check.
set -u
D=$(cd "$1" && pwd); R=/tmp/seedrepo; O=/tmp/seedrepo.orig
if [ ! -d $R ]; then cp -a /repo $R; fi
cd $R && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash "$D/demo.sh" > /tmp/seed.out 2>&1; a=$?
git apply "$D/patch.diff" || { echo "PATCH FAILS"; exit 1; }
bash "$D/demo.sh" > /tmp/seed.out2 2>&1; b=$?
echo "demo unpatched=$a patched=$b"; tail -3 /tmp/seed.out2
if [ "${2:-}" = check ] || [ "${3:-}" = check ]; then
  p=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
  CRU_REPO=$R timeout 600 python3 /verif/bin/check.py $p quick 2>&1 | tail -2 | cut -c1-250
fi
git checkout -q -- .
