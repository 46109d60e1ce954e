#!/bin/sh
# development helper: the conformance program natively and, instrumented, under
# many schedules of the simulator; both must compute the same.
set -e
here=$(cd "$(dirname "$0")" && pwd); sim=$(dirname "$here")
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/sim" "$t/nat"
cp -r "$sim/go.mod" "$sim/rt" "$sim/rng" "$sim/simsync" "$sim/simatomic" "$sim/simrand" "$sim/simos" "$t/sim/"
(cd "$sim" && go build -o "$t/instr" ./cmd/instrument)
"$t/instr" -dir "$here/src" -out "$t/sim/gen/conform" -as crunchsim/gen/conform -base 1
cp "$here"/src/* "$t/nat/"
mkdir "$t/nat/cmd"
printf 'package main\nimport "conform"\nfunc main() { print(conform.Run()) }\n' > "$t/nat/cmd/main.go"
(cd "$t/nat" && go run ./cmd) 2> "$t/want"
mkdir "$t/sim/cmd"
cp "$here/drive.txt" "$t/sim/cmd/main.go"
(cd "$t/sim" && go run ./cmd "$t/want")
