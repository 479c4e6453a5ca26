#!/bin/bash
# Runs a program full of odd constructs as it is and instrumented, and compares.
here=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/selftest.XXXXXX); trap 'rm -rf "$S"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cp -a "$here/../../sim/." "$S/"
mkdir -p "$S/selftest/plain" "$S/ugly" "$S/x"
sed 's/^package ugly.*/package plain/' "$here/ugly/ugly.go" > "$S/selftest/plain/ugly.go"
cp "$here/ugly/ugly.go" "$S/ugly/"
cd "$S" && go build -o "$S/instrument" ./cmd/instrument && "$S/instrument" "$S/ugly" "$S/x" "$S/sites" || exit 1
mkdir -p selftest/inst && sed 's/^package ugly/package inst/' x/ugly.go > selftest/inst/ugly.go
cp "$here/main.go.txt" selftest/main.go
rm -rf "$S/ugly" "$S/x"
go run ./selftest
