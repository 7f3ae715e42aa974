#!/bin/bash
# check.sh <property>|build : builds the harness with /repo's current working tree, runs one check.
# check.sh --thorough <property>: the deep variant.
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Other: error.
set -u
if [ "${1:-}" = --thorough ]; then
  shift
  export VERIF_TIER=thorough
fi
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${FIX_RS_REPO:-/repo}"
export FIX_RS_VERIF_DIR="$V"
export FIX_RS_VERIF_HARNESS="$V/harness/root.rs"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="${FIX_RS_TARGET:-$V/target}"
export RUSTFLAGS="--cfg fix_rs_verif -Awarnings"
export CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_TARGET_DIR" "$V/evidence" "$V/replays"
cd "$V/harness" || exit 2
(
  flock 9
  # contents decide what is rebuilt (time stamps of a copied tree may lie)
  now="$(cd "$REPO" && find src build resources Cargo.toml -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum; \
         cd "$V" && find harness shim -type f ! -path '*/target/*' | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)"
  stamp="$CARGO_TARGET_DIR/built-from"
  bin="$CARGO_TARGET_DIR/release/mc"
  if [ ! -x "$bin" ] || [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
    rm -f "$stamp"
    cargo clean --release --offline -p fixrs-mc >/dev/null 2>&1
    cargo clean --release --offline -p tokio >/dev/null 2>&1
    if ! cargo build --release --offline >"$CARGO_TARGET_DIR/build.log" 2>&1; then
      tail -40 "$CARGO_TARGET_DIR/build.log" >&2
      echo "the harness does not build with this tree" >&2
      exit 3
    fi
    echo "$now" >"$stamp"
  fi
  # the same without optimisation, for long and deep inputs
  case "${1:-}" in
  build | C0[1-9])
    stamp="$CARGO_TARGET_DIR/plain-built-from"
    bin="$CARGO_TARGET_DIR/debug/mc"
    if [ ! -x "$bin" ] || [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
      rm -f "$stamp"
      cargo clean --offline -p fixrs-mc >/dev/null 2>&1
      cargo clean --offline -p tokio >/dev/null 2>&1
      if ! cargo build --offline >"$CARGO_TARGET_DIR/plain-build.log" 2>&1; then
        tail -40 "$CARGO_TARGET_DIR/plain-build.log" >&2
        echo "the harness does not build with this tree" >&2
        exit 3
      fi
      echo "$now" >"$stamp"
    fi
    ;;
  esac
) 9>"$CARGO_TARGET_DIR/lock" || exit 2
[ "${1:-}" = build ] && exit 0
export FIX_RS_VERIF_PLAIN="$CARGO_TARGET_DIR/debug/mc"
exec "$CARGO_TARGET_DIR/release/mc" "$@"
