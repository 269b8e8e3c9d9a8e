#!/bin/bash
# Compiles the application of gen_test.go with the Blueprint compiler in /repo, then runs
# driver_test.go inside the generated process. Exit 0: the generated program behaves.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh || exit 2
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
python3 - "$here" "$T" <<'PY' || exit 2
import json,sys
here,t=sys.argv[1:]
o=json.load(open('/opt/vp/overlay/overlay.json'))
o['Replace']['/repo/test/wiring/zz_demo_test.go']=here+'/gen_test.go'
json.dump(o,open(t+'/ov.json','w'))
PY
export OUT=$T/out
(cd /repo/test/wiring && GOFLAGS=-overlay=$T/ov.json go test -count=1 -run '^TestDemo$' . >$T/gen.log 2>&1) || { tail -40 $T/gen.log; exit 1; }
[ -f "$here/driver_test.go" ] || exit 0
proc=$T/out/proc
printf 'module blueprint/goproc/proc\n\ngo 1.22\n' >$proc/go.mod
cp "$here/driver_test.go" $proc/zz_driver_test.go
(cd /repo && go work edit -json) | python3 -c '
import json,sys
w=json.load(sys.stdin)
print("go",w["Go"]);print("use (")
for u in w["Use"]: print("\t/repo/"+u["DiskPath"])
print("\t'$proc'\n)")
for r in w.get("Replace") or []: print("replace",r["Old"]["Path"],"=>",r["New"]["Path"] if r["New"]["Path"][0]!="." else "/repo/"+r["New"]["Path"], r["New"].get("Version",""))
' >$T/go.work
for s in "$here"/stubs/*/; do # stand-ins for libraries that are not installed
	[ -d "$s" ] && cp -r "$s" $T/stub_$(basename "$s") && sed -i "s#^use (#use (\n\t$T/stub_$(basename "$s")#" $T/go.work
done
cp /repo/go.work.sum $T/go.work.sum
export GOWORK=$T/go.work
cd $proc && timeout 200 go test -race -count=1 ./... >$T/run.log 2>&1; rc=$?
grep -v 'no test files' $T/run.log | tail -40
exit $rc
