#!/bin/bash
# Builds the symbolic executor once, to show that it builds from the committed files.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export GOPROXY=off GOTOOLCHAIN=local
cd "$here/engine" && GOWORK=off GOFLAGS=-mod=mod go build -o "$tmp/symgo" .
