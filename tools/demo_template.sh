#!/bin/bash
# Runs the demonstration beside this file inside the package of the current directory (overlay, nothing is written there).
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
export DEMO_DIR="$tmp"
printf '{"Replace":{"%s/@PKG@/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" >"$tmp/o.json"
go test -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestZZDemo$' "./@PKG@" >"$tmp/out" 2>&1
rc=$?
tail -20 "$tmp/out"
grep -q 'no tests to run' "$tmp/out" && exit 3
exit $rc
