#!/bin/bash
# dev helper: seed.sh <id>... : confirm planted bugs in a scratch copy and run the check of their property
S=/tmp/scratch_repo
if [ ! -d $S ]; then cp -a /repo $S; fi
git -C $S fetch -q /repo HEAD && git -C $S checkout -qf FETCH_HEAD && git -C $S clean -fdq
for id in "$@"; do
  D=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  if [ -z "$SKIP" ]; then
  (cd $S && bash $D/demo.sh >/tmp/seed_demo0.log 2>&1); A=$?
  git -C $S apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $S && export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= INSTA_UPDATE=no CI=true LANG=en_US.UTF-8
   cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 >/tmp/seed_test.log 2>&1); T=$(grep -c "^test .*ok$" /tmp/seed_test.log)
  (cd $S && bash $D/demo.sh >/tmp/seed_demo1.log 2>&1); B=$?
  git -C $S checkout -q -- .
  echo "$id ($P): demo clean=$A patched=$B tests ok=$T failed=$(grep -c '^test .*FAILED$' /tmp/seed_test.log)"
  fi
  git -C /repo apply $D/patch.diff && (cd /verif && VH_SHRINK=8 bash check.sh $P quick 2>&1 | cut -c1-400 | grep -v "^    " | tail -5)
  git -C /repo checkout -q -- .
done
