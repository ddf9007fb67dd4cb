#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
cp "$data"/OneBox/* .
timeout 120 "$vc" -vc vc.in > out 2>&1 &
pid=$!
while kill -0 $pid 2> /dev/null && ! grep -q "Spheres" out 2> /dev/null; do sleep 0.05; done
kill -9 $pid 2> /dev/null; wait $pid 2> /dev/null
timeout 120 "$vc" -vc vc.in > out 2>&1 || { tail -2 out; echo "no rerun after a crash"; exit 1; }
[ -s seeds.csv ] || exit 1
exit 0
