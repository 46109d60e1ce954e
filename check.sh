#!/bin/bash
# check.sh PROP [quick|thorough]   search for violations of one property
# check.sh replay FILE             re-run a violation exactly
#
# Everything is rebuilt from /repo's working tree, in a scratch directory that
# is removed at the end. Exit 0: held; 1: VIOLATION; anything else: the check
# itself could not do its work.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on CGO_ENABLED=0
export GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
unset GODEBUG GOOS GOARCH GOEXPERIMENT 2>/dev/null
T=$(mktemp -d /tmp/crunchsim.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
trap 'exit 3' INT TERM

fail() { echo "check.sh: $*" >&2; exit 2; }

mode=$1
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
if [ "$mode" = replay ]; then
	file=$(readlink -f "$2") || fail "no such file: $2"
	prop=$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "$file" | head -1)
fi

mkdir -p "$T/repo" || exit 2
cp -a "$VERIF/sim" "$T/sim" && rm -rf "$T/sim/gen" || fail "cannot copy the simulator"
cd "$T/sim" || exit 2
go build -o "$T/instrument" ./cmd/instrument || fail "the instrumenter does not build"

values=
case $prop in
C12|C13|C14|C22)
	bin=gencheck
	cp -a "$REPO/generation" "$REPO/v3" "$T/repo/" || fail "cannot copy $REPO"
	sh "$T/sim/gendeps.sh" "$T/repo/generation" "$T/sim" || fail "cannot set up the generator's dependencies"
	"$T/instrument" -proc -dir "$T/repo/generation" -out "$T/sim/gen/generation" -as crunchsim/gen/generation -base 900000 || fail "cannot instrument the generator"
	mkdir -p "$T/sim/gen/templates" && cp "$T/repo/v3"/_*.go "$T/sim/gen/templates/"
	extra="-templates $T/sim/gen/templates"
	;;
C0[1-9]|C10|C11|C18|C20|C21)
	bin=simcheck
	extra=
	for v in v1 v2 v3; do
		cp -a "$REPO/$v" "$T/repo/" || fail "cannot copy $REPO/$v"
		"$T/instrument" $values -dir "$T/repo/$v" -out "$T/sim/gen/$v" -as "crunchsim/gen/$v" -base "${v#v}00000" || fail "cannot instrument $v"
	done
	# methods with value receivers are rewritten, unless the code depends on them
	if ! go build -o "$T/$bin" "./cmd/$bin" 2>/dev/null; then
		values=-values
		for v in v1 v2 v3; do
			rm -rf "$T/sim/gen/$v"
			"$T/instrument" $values -dir "$T/repo/$v" -out "$T/sim/gen/$v" -as "crunchsim/gen/$v" -base "${v#v}00000" || fail "cannot instrument $v"
		done
	fi
	;;
*)
	fail "unknown property $prop"
	;;
esac
go build -o "$T/$bin" "./cmd/$bin" || fail "the instrumented code does not build"
if [ "$prop" = C18 ]; then
	# regenerate v3 with the simulated generator and put it next to the checked-in one
	failed() {
		cd "$VERIF" || exit 2
		set -- -prop C18 -seed "${VERIF_SEED:-1}" -tier "$tier" -verif "${OUT:-$VERIF}" -static "$1" -message "$2"
		[ "$mode" = replay ] && set -- "$@" -replay "$file"
		"$T/simcheck" "$@"
		exit $?
	}
	mkdir -p "$T/templates" "$T/out" && cp "$T/repo/v3"/_*.go "$T/templates/" || fail "no templates"
	cp -a "$REPO/generation" "$T/repo/" || fail "cannot copy $REPO/generation"
	sh "$T/sim/gendeps.sh" "$T/repo/generation" "$T/sim" || fail "cannot set up the generator's dependencies"
	"$T/instrument" -proc -dir "$T/repo/generation" -out "$T/sim/gen/generation" -as crunchsim/gen/generation -base 900000 || fail "cannot instrument the generator"
	go build -o "$T/gencheck" ./cmd/gencheck || fail "the instrumented generator does not build"
	"$T/gencheck" -templates "$T/templates" -checked "$T/repo/v3" -emit "$T/out" -seed "${VERIF_SEED:-1}" >"$T/info"
	case $? in
	0) ;;
	1) failed generate "$(cat "$T/info")" ;;
	*) fail "the regeneration did not run" ;;
	esac
	mkdir "$T/repo/r" && cp -a "$T/repo/v3" "$T/repo/r/v3" && rm -f "$T/repo/r/v3"/*.generated.go && cp "$T/out"/* "$T/repo/r/v3/" || fail "cannot make the regenerated copy"
	# does it compile, with everything that uses it, where the checked-in one does?
	for what in "amd64 build ." "amd64 test -vet=off -c -o /dev/null ." "386 build ." "arm64 build ."; do
		export GOARCH=${what%% *}
		what=${what#* }
		(cd "$T/repo/v3" && go $what) >/dev/null 2>&1 || continue
		(cd "$T/repo/r/v3" && go $what) >"$T/log" 2>&1 || failed build "go ${what%% *} for $GOARCH: the regenerated sources do not compile: $(grep -v '^#' "$T/log" | head -3 | tr '\n' ' ')"
	done
	unset GOARCH
	"$T/instrument" $values -dir "$T/repo/r/v3" -out "$T/sim/gen/v3r" -as crunchsim/gen/v3r -base 500000 || fail "cannot instrument the regenerated v3"
	go build -tags regen -o "$T/simcheck.r" ./cmd/simcheck || fail "the regenerated code does not build"
	mv "$T/simcheck.r" "$T/simcheck"
	extra="-templates $T/templates -info $T/info"
fi
cd "$VERIF" || exit 2
if [ "$mode" = replay ]; then
	"$T/$bin" $extra -replay "$file"
	exit $?
fi
"$T/$bin" $extra -prop "$prop" -seed "${VERIF_SEED:-1}" -tier "$tier" -verif "${OUT:-$VERIF}" ${SIMFLAGS:-}
exit $?
