#!/bin/bash
# seed.sh ID...: takes planted bugs through build, stable tests, demo and the check of their property, in a private copy of
# /repo and /verif (bind-mounted over the real ones in a namespace of its own). Development only.
W=${SEEDW:-/tmp/sw}
if [ -z "$SEED_IN" ]; then
	mkdir -p "$W"
	[ -d "$W/repo" ] || cp -a /repo "$W/repo"
	mkdir -p "$W/verif"
	git -C "$W/repo" fetch -q /repo HEAD && git -C "$W/repo" reset -q --hard FETCH_HEAD
	for d in .build .fast .ccache; do [ -d "$W/verif/$d" ] || cp -a /verif/$d "$W/verif/" 2>/dev/null; done
	(cd /verif && tar c --exclude=./.build --exclude=./.fast --exclude=./.ccache --exclude=./.git .) | tar x -C "$W/verif"
	SEED_IN=1 exec unshare -Urm bash "$0" "$@"
fi
mount --bind "$W/repo" /repo && mount --bind "$W/verif" /verif || exit 9
for id in "$@"; do
	cd /repo; git checkout -q -- .
	D=/tmp/seedd.$$; rm -rf "$D"; cp -a /verif/seeded/$id "$D"; rm -f "$D"/*.diff "$D"/meta.json
	P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	res="$id $P:"
	if [ -z "$ONLYCHECK" ]; then
		bash /opt/vp/build.sh >/tmp/seed.$$.log 2>&1 || res="$res BASEBUILD-FAIL"
		timeout 300 bash "$D/demo.sh" >/tmp/seed.$$.d0 2>&1 || res="$res DEMO-FAILS-ON-BASE($(tail -3 /tmp/seed.$$.d0))"
	fi
	git apply /verif/seeded/$id/patch.diff || { echo "$res PATCH-FAIL"; continue; }
	if [ -z "$ONLYCHECK" ]; then
		bash /opt/vp/build.sh >/tmp/seed.$$.log 2>&1 || { tail -20 /tmp/seed.$$.log; res="$res BUILD-FAIL"; }
		bash /opt/vp/test.sh /tmp/seed.$$.json >/dev/null 2>&1
		m=$(python3 -c "
import json
o=json.load(open('/tmp/seed.$$.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']); print(' '.join([x for x in b['stable'] if x not in p][:6]))")
		[ -n "$m" ] && res="$res TESTS-FAIL($m)"
		timeout 300 bash "$D/demo.sh" >/tmp/seed.$$.d1 2>&1 && res="$res DEMO-PASSES-WITH-BUG"
	fi
	if [ -z "$NOCHECK" ]; then
		for c in ${CHECKS:-$P}; do
			t0=$SECONDS
			(cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash check.sh $c >/tmp/seed.$$.c 2>&1); rc=$?
			if [ $rc = 1 ] && grep -q "VIOLATION property=$c " /tmp/seed.$$.c; then res="$res CAUGHT[$c $((SECONDS-t0))s]"; else res="$res MISSED[$c rc=$rc]"; [ $rc -gt 1 ] && tail -5 /tmp/seed.$$.c; fi
		done
	fi
	echo "$res"
	git checkout -q -- .; rm -rf "$D"
done
