#!/bin/bash
# Builds the symbolic executor from the committed sources (offline, vendored dependencies).
set -e
root="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$root/bin"
cd "$root/engine"
export GOPROXY=off GOFLAGS=-mod=vendor GOTOOLCHAIN=local
go build -o "$root/bin/vengine" .
# warm the build cache for the packages under test
for m in shuttermint shlib; do
  (cd /repo/$m && GOFLAGS= go build ./... >/dev/null 2>&1 || true)
done
