#!/bin/bash
# Confirms planted bugs in a scratch copy: patch applies, builds, stable tests pass, demo 0 clean / nonzero patched.
# Authoring tool. usage: seedcheck.sh [ids]
R=${R:-/tmp/seedrepo}
cd /verif/seeded || exit 2
IDS=${*:-$(ls)}
rm -rf $R
cp -a /repo $R
cd $R
for id in $IDS; do
  d=/verif/seeded/$id
  git checkout -q -- . 
  bash $d/demo.sh > $R.demo_clean.log 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id APPLY-FAIL"; continue; }
  (export CARGO_TARGET_DIR=$R/target
   cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > $R.test.log 2>&1; echo $? > $R.rc
   cargo check -p aucpace -p spake2 --no-default-features --offline >> $R.test.log 2>&1 || echo 99 > $R.rc)
  t=$(cat $R.rc); n=$(grep -c '\.\.\. ok$' $R.test.log)
  w=$(grep -c '^warning: unused\|^warning:' $R.test.log)
  bash $d/demo.sh > $R.demo_bad.log 2>&1; b=$?
  st=OK; [ $c = 0 ] && [ $t = 0 ] && [ $b != 0 ] && [ $b != 2 ] || st=BAD
  echo "$st $id clean=$c tests=$t($n) patched=$b warn=$w"
  if [ $st = BAD ]; then mkdir -p /tmp/seedbad; cp $R.demo_clean.log /tmp/seedbad/$id.clean; cp $R.test.log /tmp/seedbad/$id.test; cp $R.demo_bad.log /tmp/seedbad/$id.bad; fi
done
rm -rf $R
