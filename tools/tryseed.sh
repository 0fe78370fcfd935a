#!/bin/bash
# tryseed.sh <id> [CHECK]: applies the planted change in a scratch copy, runs its demo before/after and the check against the copy
id=$1; chk=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
w=$(mktemp -d /tmp/try_XXXXXX); git clone -q /repo "$w/repo"; cp -a /repo/radvel/*.so "$w/repo/radvel/" 2>/dev/null; cp -a /verif/seeded/$id "$w/demo"
(cd "$w/repo" && sh "$w/demo/demo.sh" >"$w/o1" 2>&1; echo "demo clean rc=$?"; tail -1 "$w/o1")
(cd "$w/repo" && git apply "$w/demo/patch.diff" && { if grep -q '^+++ b/src' "$w/demo/patch.diff"; then PATH=/opt/venv/bin:$PATH python setup.py -q build_ext --inplace --force >/dev/null 2>&1; fi; sh "$w/demo/demo.sh" >"$w/o2" 2>&1; echo "demo patched rc=$?"; tail -1 "$w/o2"; })
if [ -z "$NOCHECK" ]; then (cd /verif && for c in $chk; do VERIF_REPO="$w/repo" timeout 900 ./check $c >"$w/o3" 2>&1; echo "check $c rc=$?"; grep -m3 -A1 VIOLATION "$w/o3"; tail -1 "$w/o3"; rm -f /verif/replays/$c-*; done); fi
if [ -n "$TESTS" ]; then (cd "$w/repo" && export PATH=/opt/venv/bin:$PATH HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg RADVEL_DATADIR=$w/repo/example_data; mkdir "$w/tmp"; TMPDIR=$w/tmp timeout 840 /opt/venv/bin/python -m pytest radvel -q -p no:cacheprovider -n 4 --dist loadfile --timeout=300 --show-capture=no 2>&1 | tail -5); fi
rm -rf "$w"
