#!/bin/bash
# bug.sh ID [SECONDS]: validates a planted bug in a scratch copy of /repo and
# runs its property's check against that copy.
id="$1"; secs="${2:-40}"
here="$(cd "$(dirname "$0")/.." && pwd)"
. "$here/env.sh"
d="$here/seeded/$id"
prop="$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")"
wt="$(mktemp -d /tmp/bugwt.XXXXXX)" || exit 2
trap 'rm -rf "$wt"' EXIT
cp -a /repo/. "$wt/"
cd "$wt" || exit 2
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
go build ./... || { echo "$id: build fails"; exit 2; }
if [ -z "${NOTEST:-}" ]; then
	sed "s#/repo#$wt#g" /opt/vp/test.sh >"$wt.test.sh"
	bash "$wt.test.sh" "$wt.json" >/dev/null 2>&1
	python3 - "$wt.json" <<'P' || { echo "$id: stable tests fail"; rm -f "$wt.test.sh" "$wt.json"; exit 2; }
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o = set(json.load(open(sys.argv[1]))['passed'])
if b - o:
    print('missing', len(b - o), sorted(b - o)[:5])
    sys.exit(1)
P
	rm -f "$wt.test.sh" "$wt.json"
	dd="$(mktemp -d /tmp/bugdemo.XXXXXX)"
	cp -r "$d/." "$dd/"; rm -f "$dd"/*.diff "$dd/meta.json"
	(cd /repo && bash "$dd/demo.sh" >"$dd/out" 2>&1) || { echo "$id: demo fails on the unchanged tree"; tail -5 "$dd/out"; rm -rf "$dd"; exit 2; }
	if (cd "$wt" && bash "$dd/demo.sh" >"$dd/out" 2>&1); then echo "$id: demo passes with the patch"; rm -rf "$dd"; exit 2; fi
	echo "$id: valid; demo: $(tail -3 "$dd/out" | head -c 300)"
	rm -rf "$dd"
fi
[ -n "${NOCHECK:-}" ] && exit 0
for p in ${PROPS:-$prop}; do
	t0=$(date +%s)
	SIM_REPO="$wt" SIM_SECONDS="$secs" bash "$here/check.sh" "$p" >"$wt.out" 2>&1; rc=$?
	echo "$id: check $p rc=$rc in $(($(date +%s) - t0)) s"; grep -v '^property' "$wt.out" | head -5 | cut -c1-400
	rm -f "$wt.out"
done
