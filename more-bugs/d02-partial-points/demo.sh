#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
gcc -O1 -shared -fPIC -o read.so "$here/read.c" || exit 2
cp "$data"/OneBox_monitoring_points/* .
half=$(($(stat -c %s monitoring_points.csv) / 2))
TARGET=monitoring_points.csv FAIL_AFTER=$half LD_PRELOAD=$work/read.so timeout 120 "$vc" -vc vc.in > out 2>&1
status=$?
if [ $status = 0 ]; then echo "status zero although half of monitoring_points.csv cannot be read"; exit 1; fi
exit 0
