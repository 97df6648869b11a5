#!/bin/bash
# Builds the harness (linked against /repo's current working tree) and the command-line program.
cd "$(dirname "$0")" || exit 2
mkdir -p .build evidence
exec 9>.build/lock; flock 9
# cargo trusts file times; a content stamp makes sure changed sources are always rebuilt
stamp=$( (cd /repo && find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs -d '\n' sha256sum; cd /verif/harness && find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs -d '\n' sha256sum) | sha256sum)
if [ "$stamp" != "$(cat .build/stamp 2>/dev/null)" ] || [ ! -x .build/harness/release/vharness ] || [ ! -x .build/cli/debug/midi2spc ]; then
  rm -f .build/stamp
  rm -rf /verif/.build/harness/release/.fingerprint/midi2spc-* /verif/.build/harness/release/.fingerprint/vharness-* /verif/.build/cli/debug/.fingerprint/midi2spc-*
  cargo build --release --offline --locked --manifest-path harness/Cargo.toml --target-dir .build/harness >.build/harness.log 2>&1 \
    || { grep -E -A12 '^error' .build/harness.log | head -60; echo "harness build failed"; exit 2; }
  cargo build --offline --locked --manifest-path /repo/Cargo.toml --target-dir .build/cli >.build/cli.log 2>&1 \
    || { grep -E -A12 '^error' .build/cli.log | head -60; echo "program build failed"; exit 2; }
  echo "$stamp" > .build/stamp
fi
