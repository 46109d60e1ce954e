#!/bin/bash
# verify_seed.sh ID [check]   confirms a planted bug in a scratch copy of /repo:
# the demo passes without it, and with it everything builds, the tests pass and
# the demo fails. With "check" also runs the property's check against it.
HERE=$(cd "$(dirname "$0")/.." && pwd)
S=$HERE/seeded/$1
T=$(mktemp -d /tmp/seedrepo.XXXXXX); trap 'rm -rf "$T"' EXIT
cp -a /repo "$T/repo"
mkdir "$T/demo"; cp -a "$S/." "$T/demo/"; rm -f "$T/demo/patch.diff" "$T/demo/meta.json"
sed "s#/repo#$T/repo#g" /opt/vp/build.sh > "$T/build.sh"
sed "s#/repo#$T/repo#g" /opt/vp/test.sh > "$T/test.sh"
cd "$T/repo" || exit 2
timeout 300 sh "$T/demo/demo.sh" > "$T/o" 2>&1 || { echo "$1: demo fails on the unchanged tree"; tail -5 "$T/o"; exit 1; }
git apply --check "$S/patch.diff" && git apply "$S/patch.diff" || { echo "$1: patch does not apply"; exit 1; }
bash "$T/build.sh" > "$T/o" 2>&1 || { echo "$1: does not build"; cat "$T/o"; exit 1; }
bash "$T/test.sh" "$T/out.json" > /dev/null 2>&1
python3 - "$T/out.json" <<'P' || { echo "$1: tests fail"; exit 1; }
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b['stable']); miss=st-set(o['passed'])
print('missing',sorted(miss)[:5]) if miss else None
sys.exit(bool(miss))
P
SECONDS=0
if timeout 300 sh "$T/demo/demo.sh" > "$T/o" 2>&1; then echo "$1: demo passes with the bug"; tail -3 "$T/o"; exit 1; fi
echo "$1: ok (demo ${SECONDS}s: $(tail -1 "$T/o" | cut -c1-100))"
if [ "${2:-}" = check ]; then
	P=${3:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
	mkdir -p "$T/out"
	REPO="$T/repo" OUT="$T/out" timeout 900 "$HERE/check.sh" "$P" quick > "$T/c" 2>&1
	rc=$?
	echo "$1: check $P rc=$rc ${SECONDS}s"; head -${LINES_:-2} "$T/c" | cut -c1-${COLS:-250}
fi
