#!/bin/bash
# run.sh <property> [tier]: extracts the MIR of /repo's working tree and decides one property on it.
# run.sh setup: builds the extractor and the analyser.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${RPSA_REPO:-/repo}"
B="$HERE/build"
mkdir -p "$B"
say() { echo "$*" >&2; }
build() {
  ( cd "$HERE/sa/extract" && cargo +nightly build --release --offline -q ) || { say "cannot build the extractor"; exit 2; }
  ( cd "$HERE/sa/analyze" && cargo build --release --offline -q ) || { say "cannot build the analyser"; exit 2; }
}
if [ "${1:-}" = setup ]; then build; exit 0; fi
PROP="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
EX="$HERE/sa/extract/target/release/extract"
AN="$HERE/sa/analyze/target/release/analyze"
build
W="$(mktemp -d "$B/run.XXXXXX")" || exit 2
trap 'rm -rf "$W"' EXIT
LIB="$(rustc +nightly --print sysroot)/lib"
# a target directory of its own: cargo must not consider the crate fresh
( cd "$REPO" && RPSA_OUT="$W/ir.json" LD_LIBRARY_PATH="$LIB" RUSTC_WORKSPACE_WRAPPER="$EX" \
  cargo +nightly check --lib --offline -q --target-dir "$W/target" ) >"$W/log" 2>&1
if [ ! -s "$W/ir.json" ]; then
  cat "$W/log" >&2
  say "the library does not compile, nothing to analyse"
  exit 2
fi
"$AN" "$W/ir.json" check "$PROP" "$TIER" "$HERE"
exit $?
