#!/bin/bash
# check.sh ID [--thorough] [--case N] [--seed N] [--budget SECONDS]
# Builds what the check of property ID needs from /repo's working tree and runs it.
# Exit: 0 held, 1 VIOLATION, 2 could not build or run, 3 inconclusive.
set -u
cd "$(dirname "$0")" || exit 2
DIR=$PWD
ID=${1:?property id}
shift
export VERIF_DIR=$DIR RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
for a in "$@"; do [ "$a" = --thorough ] && export VERIF_TIER=thorough; done
THOROUGH=
[ "${VERIF_TIER:-}" = thorough ] && THOROUGH=1
mkdir -p build evidence replay
case " $* " in *" --case "*) ;; *) rm -f "$DIR/evidence/$ID.json" ;; esac

# build CRATE [cargo arguments]: into build/CRATE (build/net for the crates with networking, which
# have most of their dependencies in common)
build() {
  local crate=$1 log dir
  shift
  log=$DIR/build/$crate.log
  dir=$crate
  case $crate in stream | upgrade | proxy | proxymon | configwhole) dir=net ;; esac
  if ! CARGO_TARGET_DIR=$DIR/build/$dir cargo build --offline --manifest-path "$DIR/harness/$crate/Cargo.toml" "$@" >"$log" 2>&1; then
    echo "$ID: cannot build harness/$crate against /repo:"
    grep -E '^error' -A6 "$log" | head -60
    exit 2
  fi
}

# The racing threads of the handle monitor under Miri, which reports undefined behaviour and data races.
miri_handles() {
  local out=$DIR/build/C17.miri.log
  MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-many-seeds=0..8" RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$DIR/build/handles-miri MON_SHARD=$DIR/build/C17.miri.shard \
    timeout 600 cargo miri run --offline --manifest-path "$DIR/harness/handles/Cargo.toml" -- C17 --small >"$out" 2>&1
  if grep -qE '^error: (Undefined Behavior|unsupported)|VIOLATION ' "$out"; then
    mkdir -p "$DIR/replay" && cp "$out" "$DIR/replay/C17-miri.txt"
    echo "C17: Miri reports a problem in src/handle.rs"
    echo "VIOLATION property=C17 replay=$DIR/replay/C17-miri.txt"
    return 1
  fi
  return 0
}

case $ID in
  C0[1-9] | C1[0-6] | C20 | C21)
    build core
    exec build/core/debug/core-mon "$ID" "$@"
    ;;
  C17)
    build core
    case " $* " in *" --case "*) exec build/core/debug/core-mon "$ID" "$@" ;; esac
    # The generators alone, counted beyond 2^32. If the module cannot be compiled outside its
    # crate (it was moved or uses its neighbours), the clients and servers are still watched.
    rm -f "$DIR"/build/C17.*.shard
    parts=
    if (build handles) >"$DIR/build/C17.log" 2>&1; then
      MON_SHARD=$DIR/build/C17.handles.shard build/handles/debug/handles-mon "$ID" "$@"
      parts=$DIR/build/C17.handles.shard
      [ -z "$THOROUGH" ] || miri_handles || exit 1
    else
      echo "C17: note: src/handle.rs does not compile on its own; only handles of clients and servers are checked"
    fi
    export MON_ABSORB=$parts
    exec build/core/debug/core-mon "$ID" "$@"
    ;;
  C18)
    build tags
    build tags --release
    rm -f "$DIR"/build/C18.debug.shard
    MON_SHARD=$DIR/build/C18.debug.shard build/tags/debug/tags-mon C18 "$@" &
    release=$DIR/build/C18.release.shard
    rm -f "$release"
    MON_SHARD=$release build/tags/release/tags-mon C18 "$@"
    rc=$?
    wait %1 || rc=$?
    [ $rc -gt 1 ] && { echo "C18: the monitor ended with $rc"; exit 3; }
    MON_MERGE=1 MON_ABSORB=$DIR/build/C18.debug.shard:$release exec build/tags/debug/tags-mon C18 "$@"
    ;;
  C19)
    build core
    case " $* " in *" --case "*) exec build/core/debug/core-mon "$ID" "$@" ;; esac
    build stream --release
    part=$DIR/build/C19.stream.shard
    rm -f "$part"
    # A shard prints its own violation line; the second program merges its observations.
    MON_PART=$part build/net/release/stream-mon "$ID" "$@"
    rc=$?
    [ $rc -gt 1 ] && { echo "C19: the stream monitor ended with $rc"; exit 3; }
    MON_ABSORB=$part exec build/core/debug/core-mon "$ID" "$@"
    ;;
  S0[1-6])
    build stream
    exec build/net/debug/stream-mon "$ID" "$@"
    ;;
  S07)
    build upgrade
    exec build/net/debug/upgrade-mon "$ID" "$@"
    ;;
  P0[1-4] | P0[6-9] | P10)
    build proxy
    build proxymon
    exec build/net/debug/proxy-mon "$ID" "$@"
    ;;
  P05)
    # If the configuration module cannot be compiled on its own, with all modules of the proxy
    if (build config) >"$DIR/build/P05.log" 2>&1; then
      exec build/config/debug/config-mon "$ID" "$@"
    fi
    build configwhole
    exec build/net/debug/config-mon-whole "$ID" "$@"
    ;;
  *)
    echo "unknown property $ID"
    exit 2
    ;;
esac
