#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]
# Builds the symbolic executor from /verif/engine, then decides the property on
# /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export GOPROXY=off GOTOOLCHAIN=local
(cd "$here/engine" && GOWORK=off GOFLAGS=-mod=mod go build -o "$tmp/symgo" .) || exit 2
"$tmp/symgo" check "$id" --tier "$tier" -repo "${VERIF_REPO:-/repo}" -verif "$here"
