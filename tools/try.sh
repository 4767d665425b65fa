#!/bin/bash
# usage: try.sh <patch or git rev (-R rev)> <IDs...>: run checks on a scratch copy of /repo
set -e
W=$(mktemp -d /tmp/tryXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/r"
( cd /repo && git ls-files -z | xargs -0 tar cf - ) | tar xf - -C "$W/r"
cp /repo/Cargo.lock "$W/r/" 2>/dev/null || true
P=$(readlink -f "$1"); shift
( cd "$W/r" && git init -q . && git apply --whitespace=nowarn "$P" )
cd "$(dirname "$0")/.."
for i in "$@"; do VERIF_REPO="$W/r" python3 check.py "$i" || true; done
