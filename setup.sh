#!/bin/sh
# builds the framework once, to show that it builds offline; each check builds
# its own copy again, from /repo's working tree.
set -e
cd "$(dirname "$0")/sim"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
T=$(mktemp -d /tmp/crunchsim.XXXXXX)
trap 'rm -rf "$T"' EXIT
go build -o "$T/instrument" ./cmd/instrument
go vet ./cmd/instrument ./rt ./simsync ./simatomic ./simos/... ./gens ./rng
