#!/bin/sh
# development helper: instrument /repo's working tree into sim/gen
set -e
cd "$(dirname "$0")"
go build -o /tmp/instr ./cmd/instrument
for v in v1 v2 v3; do /tmp/instr -dir ${REPO:-/repo}/$v -out gen/$v -as crunchsim/gen/$v -base ${v#v}00000; done
