#!/bin/bash
# build.sh <bin>...: builds check binaries against /repo's working tree.
# Checks that need private items are built with --cfg verif (see MANIFEST.json hooks), the others without.
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/env.sh"
BASEFLAGS="-W dependency_on_unit_never_type_fallback -A warnings"
mkdir -p "$VERIF/.build"
exec 9>"$VERIF/.build/lock"; flock 9
for bin in "$@"; do
  if grep -q '^//@ hooks' "$VERIF/mc/src/bin/$bin.rs"; then T="$VERIF/.build/hooks"; F="$BASEFLAGS --cfg verif"; else T="$VERIF/.build/plain"; F="$BASEFLAGS"; fi
  extra=""
  if [ "${VERIF_REPO:-/repo}" != /repo ]; then extra="--config patch.crates-io.algorsand.path=\"$VERIF_REPO\""; fi
  if grep -q '^//@ algokey' "$VERIF/mc/src/bin/$bin.rs"; then
    ( cd "${VERIF_REPO:-/repo}" && RUSTFLAGS="$BASEFLAGS" CARGO_INCREMENTAL=0 cargo build --offline --locked --quiet --target-dir "$VERIF/.build/repo" --bin algokey ) || exit 2
  fi
  ( cd "$VERIF/mc" && RUSTFLAGS="$F" CARGO_INCREMENTAL=0 cargo build --offline --locked --quiet --target-dir "$T" --bin "$bin" ) || exit 2
  echo "$T/debug/$bin" > "$VERIF/.build/last-$bin"
done
