#!/bin/bash
# Usage: check.sh [--quick|--thorough] <property>...   Builds the analyser (offline) and runs it on /repo's current source.
dir="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOAST_VERIF="${GOAST_VERIF:-$dir}"
mkdir -p "$dir/bin" "$dir/evidence"
if ! (cd "$dir/analyzer" && go build -o "$dir/bin/goast-verify" .); then
  echo "the analyser does not build" >&2
  exit 2
fi
exec "$dir/bin/goast-verify" "$@"
