#!/bin/bash
# seedtest.sh ID [full]: does a planted change build, pass the existing tests and fail its demonstration, which passes without it?
# Works on a scratch copy of /repo. Not used by any check.
ID=$1; S=/tmp/sw; export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1
mkdir -p $S
rsync -a --delete --exclude /repo/target /repo/ $S/repo/ --exclude target
cd $S/repo || exit 2
D=$S/seed-$ID; rm -rf "$S/seed-$ID"; cp -r /verif/seeded/$ID $D
if [ "$2" != patched ]; then ( bash $D/demo.sh ) > $S/$ID.clean.log 2>&1; echo "$ID clean demo: $?"; fi
git apply /verif/seeded/$ID/patch.diff || { echo "$ID patch does not apply"; exit 1; }
CARGO_TARGET_DIR=$S/target timeout 600 cargo test --workspace --offline --no-fail-fast -- --test-threads 8 > $S/$ID.test.log 2>&1; echo "$ID tests: $? $(grep -c '\.\.\. ok' $S/$ID.test.log) ok $(grep -c 'FAILED$' $S/$ID.test.log) failed"
( timeout 300 bash $D/demo.sh ) > $S/$ID.bug.log 2>&1; echo "$ID demo with the change: $? : $(grep -v '^warning' $S/$ID.bug.log | tail -1 | cut -c1-150)"
rm -rf "$S/seed-$ID"
