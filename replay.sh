#!/bin/bash
# replay.sh FILE: runs the recorded schedule and faults again; exits 1 if the violation shows.
f=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
export YSIM_DIR="$PWD"
bash build.sh >/dev/null 2>&1 || exit 2
bin=release
if grep -q '"property": *"R26"' "$f"; then bin=plain; fi
exec "target/sim/$bin/ysim" replay "$f"
