#!/bin/bash
# replay.sh FILE: run the counterexample in FILE against the compiled code of /repo.
here=$(cd "$(dirname "$0")" && pwd)
f=$(readlink -f "$1")
prop=$(sed -n 's/.*"harness": *"\([A-Z0-9]*\)_.*/\1/p' "$f" | head -1)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
"$here/harness/native.sh" "$tmp/replay" "$prop" || exit 2
TZ=UTC "$tmp/replay" "$f"
