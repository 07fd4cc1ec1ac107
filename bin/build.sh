#!/bin/bash
# Builds the symbolic executor (and warms the build cache with the native replay program).
. "$(dirname "$0")/env.sh"
set -e
mkdir -p "$VERIF_ROOT/build"
cd "$VERIF_ROOT/engine"
go build -o "$VERIF_ROOT/build/gosym.$$" .
mv -f "$VERIF_ROOT/build/gosym.$$" "$VERIF_ROOT/build/gosym"
if [ "$1" = "warm" ]; then
  cd "$VERIF_ROOT/harness"
  go build -o /dev/null ./cmd/replay || true
  CGO_ENABLED=1 go build -race -o /dev/null ./cmd/replay || true
fi
