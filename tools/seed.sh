#!/bin/bash
# seed.sh ID [property...]: confirms the planted bug seeded/ID in a scratch copy and runs the checks of the given properties (default: its own) on it.
V="$(cd "$(dirname "$0")/.." && pwd)"; . /opt/vp/env.sh
id=$1; shift; S=$V/seeded/$id; W=/tmp/seedwork/$id
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"
cd "$W/repo"; git checkout -q -- . 
bash "$W/demo/demo.sh" >"$W/d0" 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
go test ./... >"$W/t" 2>&1; t=$?
bash "$W/demo/demo.sh" >"$W/d1" 2>&1; b=$?
p="$*"; [ -z "$p" ] && p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p "$W/v/evidence"; cp "$V/known_findings.jsonl" "$W/v/"
GOAST_REPO="$W/repo" GOAST_VERIF="$W/v" ${AN:-$V/bin/goast-verify} $p >"$W/c" 2>&1; c=$?
echo "$id [$p]: demo clean=$a mutant=$b tests=$t check=$c $(grep -c VIOLATION "$W/c") violation(s)"
[ -n "$SHOW" ] && cat "$W/c" "$W/d0" "$W/d1"
rm -rf "/tmp/seedwork/$id"
