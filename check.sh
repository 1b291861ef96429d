#!/bin/bash
# check.sh ID [quick|thorough]: builds what is needed from the current trees
# and runs the check of one property. Exit 0: held; 1: violation; 2: no verdict.
V=$(cd "$(dirname "$0")" && pwd)
ID=$1
[ -n "$2" ] && export VERIF_TIER=$2
cd "$V" || exit 2
parts="krill shim harness"
bin=$V/target/harness/debug/ks
if [ "$ID" = C15 ]; then
  # Only adds detail: without it the binary alone decides.
  bash "$V/build.sh" inproc || rm -f "$V/target/inproc/debug/inproc"
fi
bash "$V/build.sh" $parts || { echo "HARNESS-ERROR: build failed" >&2; exit 2; }
ulimit -c 0
exec "$bin" check "$ID"
