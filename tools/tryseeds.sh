#!/bin/bash
# runs the check of each planted bug (or of those given) against a scratch copy with the bug applied
cd /verif/seeded
for s in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t=$(mktemp -d); cp -a /repo/. $t; git -C $t apply /verif/seeded/$s/patch.diff || { echo "$s NOAPPLY"; continue; }
  v=$(mktemp -d); mkdir $v/evidence; cp /verif/known_findings.txt $v
  VERIF_REPO=$t VERIF_DIR=$v ${AN:-/verif/bin/analyzer} $p > $v/out 2>&1; rc=$?
  echo "$s $p rc=$rc $(grep -m1 BROKEN $v/out | cut -c1-220)"
  rm -rf "${t:?}" "${v:?}"
done
