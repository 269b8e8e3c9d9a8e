#!/bin/bash
# Runs demo_test.go inside the package named in the file PKG (path under /repo).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh || exit 2
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
pkg=$(cat "$here/PKG")
python3 - "$here" "$T" "$pkg" <<'PY' || exit 2
import json,sys
here,t,pkg=sys.argv[1:]
o=json.load(open('/opt/vp/overlay/overlay.json'))
o['Replace']['/repo/'+pkg+'/zz_demo_test.go']=here+'/demo_test.go'
json.dump(o,open(t+'/ov.json','w'))
PY
cd /repo/$pkg && GOFLAGS=-overlay=$T/ov.json timeout 250 go test -race -count=1 -run '^TestDemo' . >$T/log 2>&1; rc=$?
tail -40 $T/log
exit $rc
