#!/bin/bash
# try_bug.sh ID...: for each planted bug, in a scratch copy of /repo: builds, passes the stable
# tests, demo passes without and fails with it.
for id in "$@"; do
S=/verif/seeded/$id
W=/tmp/bugwt.$id
mkdir -p $W && cp -a /repo/. $W/
cd $W && git checkout -q -- . 
bash $S/demo.sh >/tmp/demo0.$id 2>&1; r0=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
bash $S/demo.sh >/tmp/demo1.$id 2>&1; r1=$?
if [ -z "$NOTEST" ]; then
( cd $W && cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/test.$id 2>&1; echo $? >> /tmp/test.$id; cd test_no_std && cargo test --features graph_safe_compare/wyrng --offline >> /tmp/test.$id 2>&1 )
fails=$(grep -cE '^test .*FAILED|^error' /tmp/test.$id)
fi
echo "$id: demo clean=$r0 patched=$r1 failing_tests=$fails"
cd /tmp && find $W -delete
done
