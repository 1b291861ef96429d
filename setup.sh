#!/bin/bash
# Builds everything once.
V=$(cd "$(dirname "$0")" && pwd)
parts="krill shim harness"
[ -d "$V/inproc" ] && parts="$parts inproc"
exec bash "$V/build.sh" $parts
