#!/bin/bash
# Warm build of everything the checks need (each check also builds for itself).
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
for c in harness/*/; do
  c=$(basename "$c")
  [ "$c" = common ] && continue
  d=$c
  case $c in stream | upgrade | configwhole | proxy | proxymon) d=net ;; certs) continue ;; esac
  CARGO_TARGET_DIR=$PWD/build/$d cargo build --offline --manifest-path "harness/$c/Cargo.toml" >/dev/null 2>&1 || echo "setup: harness/$c does not build"
done
exit 0
