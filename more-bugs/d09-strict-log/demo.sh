#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
cp "$data"/OneBox/* .
timeout 100 "$vc" -vc vc.in > out 2>&1 || exit 2
mv seeds.csv good.csv; rm -f VoroCrustLog.txt
ln -s /dev/full VoroCrustLog.txt
timeout 100 "$vc" -vc vc.in > out 2>&1 || { echo "the run fails because its log cannot be written"; exit 1; }
cmp good.csv seeds.csv || exit 1
exit 0
