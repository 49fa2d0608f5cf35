#!/bin/bash
# Development helper: confirms a planted change in a scratch copy of /repo and (optionally) the check.
# seedcheck.sh <id> [notest] : build+tests with the patch, demo without (in /repo) and with it.
set -u
id=$1; mode=${2:-full}
S=/verif/seeded/$id
W=/tmp/seed/$id
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
/bin/rm -rf "$W"; mkdir -p /tmp/seed; cp -a /repo "$W" || exit 9
git -C "$W" apply "$S/patch.diff" || { echo "APPLY FAIL"; exit 9; }
cp -a "$S" "/tmp/seed/demo-$id"
(cd /repo && timeout 300 bash "/tmp/seed/demo-$id/demo.sh" >/tmp/seed/$id.d0 2>&1); d0=$?
# The build and the demo use fixed paths under /repo: bind the copy there in a private mount namespace.
if [ "$mode" = full ]; then
unshare -Urm bash -c "mount --bind $W /repo && cd /repo && bash /opt/vp/test.sh /tmp/seed/$id.json" >/tmp/seed/$id.t 2>&1; t=$?
python3 - <<EOF
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed/$id.json'))
names=b if isinstance(b,list) else b['stable']
p=set(o['passed']); print("TESTS missing:",[n for n in names if n not in p][:5], "failed", o['failed'][:5])
EOF
fi
unshare -Urm bash -c "mount --bind $W /repo && cd /repo && timeout 300 bash /tmp/seed/demo-$id/demo.sh" >/tmp/seed/$id.d1 2>&1; d1=$?
echo "DEMO clean=$d0 patched=$d1"
if [ "${CHECK:-1}" = 1 ]; then
VERIF_REPO="$W" timeout 900 /verif/check $P quick > /tmp/seed/$id.c 2>&1; echo "CHECK $P rc=$? $(grep -E 'VIOLATION|OK|ERROR' /tmp/seed/$id.c | head -3)"; 
fi
/bin/rm -rf "$W" "/tmp/seed/demo-$id"
