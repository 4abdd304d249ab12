#!/bin/bash
# Replays a file reported by a check, exactly: ./replay.sh replays/C01-release-123.replay
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
b=$(sed -n 's/^build //p' "$f")
./dsim/build.sh "$b" >/dev/null || { echo "build failed"; exit 2; }
exec "target/x86_64-unknown-linux-gnu/$b/dsim" replay "$f"
