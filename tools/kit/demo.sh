#!/bin/bash
# Builds the demonstration against the working tree (current directory) and runs it.
# 0: behaves as it should, 1: does not.
set -u
KIND=@KIND@
MODE=@MODE@
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
tar -C "$tmp" -xzf "$here/kit.tar.gz" || exit 2
mkdir "$tmp/build"
sed "s#REPO#$repo#g; s#HERE#$here#g" "$tmp/kit/$KIND.toml" >"$tmp/build/Cargo.toml"
cp "$tmp/kit/$KIND.lock" "$tmp/build/Cargo.lock"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR=$tmp/target
dir=debug
[ -n "$MODE" ] && dir=release
timeout 250 cargo build -q --offline $MODE --manifest-path "$tmp/build/Cargo.toml" 2>"$tmp/log" || { tail -40 "$tmp/log"; exit 3; }
cd "$tmp" || exit 2
if [ "$KIND" = proxy ]; then
  timeout 60 python3 "$here/demo.py" "$tmp/target/$dir/proxy-under-test"
else
  timeout 120 "$tmp/target/$dir/demo"
fi
rc=$?
[ $rc = 0 ] && echo "demo: as it should be"
[ $rc = 0 ] || { echo "demo: broken ($rc)"; rc=1; }
exit $rc
