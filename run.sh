#!/bin/bash
# run.sh setup                  build the harness
# run.sh <ID>                   check one property (tier and seed from VERIF_TIER, VERIF_SEED)
# run.sh <ID> <replay file>     run one recorded case again
set -u
here="$(cd "$(dirname "$0")" && pwd)"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS DOCS_RS
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export VERIF_DIR="$here" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
cd "$here/harness" || exit 2

build() {
  # what is compiled is decided by content, not by file times
  local now stamp=target/repo.stamp
  now="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$now" ]; then
    if [ -d target/debug ]; then cargo clean --offline --locked -p sumtree-orderbook >/dev/null 2>&1; fi
  fi
  mkdir -p target
  cargo build --offline --locked >target/build.log 2>&1 || { cat target/build.log >&2; return 1; }
  echo "$now" >"$stamp"
}

if ! build; then echo "the harness does not build against /repo" >&2; exit 2; fi
case "${1:-}" in
  setup) exit 0 ;;
  "") echo "usage: run.sh setup | <ID> [replay file]" >&2; exit 2 ;;
esac
if [ $# -ge 2 ]; then
  f="$(cd - >/dev/null && realpath "$2")"
  exec ./target/debug/obcheck replay "$1" "$f"
fi
exec ./target/debug/obcheck run "$1"
