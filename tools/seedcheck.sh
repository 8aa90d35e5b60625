#!/bin/bash
# usage: seedcheck.sh [-n] ID...   confirms planted bugs: demo passes without, tests pass and demo fails with, and which checks report (-n: no demo/tests)
here=$(cd "$(dirname "$0")/.." && pwd)
n=; [ "$1" = -n ] && { n=1; shift; }
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
	d=$here/seeded/$id
	p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
	r="$id [$p]"
	if [ -z "$n" ]; then (cd /repo && bash "$d/demo.sh" >/tmp/seed.log 2>&1) && r="$r clean:ok" || r="$r clean:DEMO-FAILS"; fi
	git -C /repo apply "$d/patch.diff" || { echo "$r patch does not apply"; continue; }
	if [ -z "$n" ]; then
		bash /opt/vp/build.sh >/tmp/seed.b 2>&1 && r="$r build:ok" || r="$r build:FAIL"
		bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.t 2>&1
		r="$r $(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass','tests'):
            if k in x: return names(x[k])
        return set(k for k,v in x.items() if v in ('pass','passed',True))
    return set(x)
s=names(b);p=names(o);print('tests:%d/%d'%(len(s&p),len(s)))
P
)"
		(cd /repo && bash "$d/demo.sh" >/tmp/seed.log 2>&1); rc=$?
		[ $rc -ne 0 ] && r="$r demo:fails($rc)" || r="$r DEMO-STILL-PASSES"
	fi
	bash "$here/check.sh" "$p" >/tmp/seed.c 2>&1; rc=$?
	[ $rc -eq 1 ] && r="$r CAUGHT" || r="$r missed(rc=$rc)"
	echo "$r"
	git -C /repo checkout -q -- .
done
