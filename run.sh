#!/bin/bash
# run.sh <property id>: builds the check for one property from /repo's working tree and runs it.
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: no answer.
ID=${1:?usage: run.sh <property id>}; shift
VERIF=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=${VERIF_DIR:-$VERIF} VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
. "$VERIF/env.sh"
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
"$VERIF/build.sh" "$bin" || { echo "$ID: build failed" >&2; exit 2; }
EXE="$(cat "$VERIF/.build/last-$bin")"
[ -x "$EXE" ] || { echo "$ID: no binary" >&2; exit 2; }
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID-XXXXXX") || exit 2
export VERIF_SCRATCH="$SCRATCH"
mkdir -p "$SCRATCH/cwd/data"
cp "$VERIF_REPO/data/mnemonics_wordlist.txt" "$SCRATCH/cwd/data/" 2>/dev/null
LIMIT=780; [ "$VERIF_TIER" = thorough ] && LIMIT=${VERIF_LIMIT:-7000}
( cd "$SCRATCH/cwd" && ulimit -v 25000000 && exec timeout -k 5 "$LIMIT" "$EXE" "$@" ) 2>"$SCRATCH/stderr"
rc=$?
tail -c 100000 "$SCRATCH/stderr" >&2
# The code under test took the whole process down (stack overflow, abort, invalid access): no panic handler
# can catch that, and nothing in the check itself does it.
case $rc in 132|134|135|136|139)
  mkdir -p "$VERIF_DIR/replay"
  python3 "$VERIF/tools/crashed.py" "$ID" "$rc" "$SCRATCH/stderr" "$VERIF_DIR/replay/$ID.json"
  echo "VIOLATION property=$ID replay=$VERIF_DIR/replay/$ID.json"
  rc=1;;
esac
case "$SCRATCH" in /tmp/verif-*|"${TMPDIR:-/tmp}"/verif-*) rm -rf "$SCRATCH";; esac
exit $rc
