#!/bin/bash
# Builds the driver and runs it: ./check.sh check -prop C01 [-tier thorough] | replay FILE | build
set -e
cd "$(dirname "$0")"
VERIF_DIR="$(pwd)"
export VERIF_DIR
mkdir -p .build .cache/go-build
bin=".build/vdst.$$"
trap 'rm -f "$VERIF_DIR/$bin"' EXIT
if ! (cd sim && GOCACHE="$VERIF_DIR/.cache/go-build" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOTELEMETRY=off go build -o "$VERIF_DIR/$bin" .); then
  echo "error of the check: the driver does not build" >&2
  exit 2
fi
set +e
"$VERIF_DIR/$bin" "$@"
exit $?
