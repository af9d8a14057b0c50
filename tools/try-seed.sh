#!/bin/bash
# try-seed.sh ID...: demo on the clean and the patched scratch tree, and this property's quick check on the patched one
V=$(cd "$(dirname "$0")/.."; pwd)
for id in "$@"; do
  d=$V/seeded/$id; prop=$(node -p "require('$d/meta.json').property")
  W=/tmp/tryseed.$$; mkdir -p $W
  cp -a /repo/packages $W/packages; ln -s /repo/node_modules $W/node_modules
  cd $W && bash $d/demo.sh >/tmp/demo.out 2>&1; c=$?
  [ $c = 0 ] || tail -3 /tmp/demo.out
  (cd $W && git init -q . 2>/dev/null; git apply $d/patch.diff) || echo "patch does not apply"
  bash $d/demo.sh >/tmp/demo.out 2>&1; p=$?
  r=$(cd $V; VP_REPO=$W VERIF_SEED=1 timeout 900 node run.js check $prop 2>&1 | grep -aE "violation class|VIOLATION prop|rror" | head -3 | cut -c1-200)
  echo "$id clean=$c patched=$p :: $r"
  rm -rf "/tmp/tryseed.$$"
done
