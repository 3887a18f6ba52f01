# Sourced by every script here: offline toolchain settings and build locations.
export RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
export HOME=/root LANG=C.UTF-8
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
VH_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd); export VH_DIR
# the repository lies beside this directory
export VH_REPO="${VH_DIR%/*}/repo"
export VH_TARGET="$VH_DIR/target"
export CARGO_TARGET_DIR="$VH_TARGET"
export VH_BINS="$VH_TARGET/cli/debug"

# Hash of everything in /repo that a build depends on.
vh_hash() {
  (cd "$VH_REPO" && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 |
    sort -z | xargs -0 sha256sum | sha256sum)
}

# vh_build lib|units|log|cli: build the harness (or the command-line tools) from /repo's
# working tree. Cargo decides by file times; the content hash guards against
# times that lie (a copied or patched tree) and files appearing in extra/.
vh_build() {
  local what=$1 h man log tgt extra=--locked
  mkdir -p "$VH_TARGET"
  log="$VH_TARGET/build-$what.log"
  case $what in
    lib) man="$VH_DIR/harness/Cargo.toml" tgt="$VH_TARGET" ;;
    units|log) man="$VH_DIR/harness/Cargo.toml" tgt="$VH_TARGET/$what" extra="--locked --features $what" ;;
    cli) man="$VH_REPO/Cargo.toml" tgt="$VH_TARGET/cli" ;;
  esac
  h=$(vh_hash)
  if [ "$h" != "$(cat "$VH_TARGET/$what.hash" 2>/dev/null)" ] && [ -d "$tgt/debug" ]; then
    rm -f "$VH_TARGET/$what.hash"
    for p in y86-sim sim_macro binutils y86-dbg; do
      cargo clean --manifest-path "$man" --target-dir "$tgt" --offline -p $p >/dev/null 2>&1
    done
  fi
  cargo build --manifest-path "$man" --target-dir "$tgt" --offline -q --bins $extra >"$log" 2>&1 || {
    grep -E '^error' -A8 "$log" >&2
    echo "$what does not build against $VH_REPO" >&2
    return 1
  }
  echo "$h" >"$VH_TARGET/$what.hash"
}
