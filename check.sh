#!/bin/bash
# check.sh ID quick|thorough: builds from /repo's working tree, then runs the seeded search.
cd "$(dirname "$0")" || exit 2
export YSIM_DIR="$PWD"
case $1 in
  R26) need="plain" ;;
  R12|R13|R14|R15|R29|R31) need="release tools" ;;
  *) need="release" ;;
esac
log=$(bash build.sh $need 2>&1) || { echo "$log" | tail -40; echo "ERROR build failed"; exit 2; }
mkdir -p evidence replays
exec "target/sim/${need%% *}/ysim" check "$1" "$2"
