#!/bin/bash
# Development aid: newseed.sh ID PROPERTY PKGDIR "needs" "what it breaks"
# Expects the edited tree in /tmp/sw/repo (git worktree copy of /repo) and the demo test in
# /tmp/sw/demo_test.go (in-package test with TestDemo*). Verifies everything, then stores the seed.
set -u
id=$1 prop=$2 pkg=$3 needs=$4 breaks=$5
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/sw/repo diff > $d/patch.diff
cp /tmp/sw/demo_test.go $d/demo_test.go.txt
cat > $d/demo.sh <<D
#!/bin/bash
# Runs the in-package test beside this file against the tree in the current directory.
here=\$(cd "\$(dirname "\$0")" && pwd)
export PATH=/opt/veriftools/go1.24.13/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
mkdir -p /tmp/seeddemo-$id
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go.txt"}}' "\$PWD" "\$here" > /tmp/seeddemo-$id/overlay.json
go test -overlay /tmp/seeddemo-$id/overlay.json -vet=off -count=1 -timeout 120s -run '^TestDemo' ./$pkg
rc=\$?
rm -rf /tmp/seeddemo-$id
exit \$rc
D
python3 - "$d/meta.json" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
ok=1
(cd /repo && bash $d/demo.sh >/tmp/sw/un.log 2>&1) || { echo "$id: demo FAILS on unchanged tree"; tail -20 /tmp/sw/un.log; ok=0; }
(cd /tmp/sw/repo && go build ./... ) || { echo "$id: build fails"; ok=0; }
(cd /tmp/sw/repo && bash $d/demo.sh >/tmp/sw/pa.log 2>&1) && { echo "$id: demo PASSES with patch"; ok=0; }
(cd /tmp/sw/repo && go test -json -vet=off -count=1 -p 1 -cpu 2 -tags=e2e -timeout 5m ./... > /tmp/sw/t.json; python3 /opt/vp/results.py /tmp/sw/t.out gojson:/tmp/sw/t.json >/dev/null
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/sw/t.out'))
p=set(r.get('passed',r.get('pass',[])))
m=b-p
print("tests missing:",sorted(m)[:10]) if m else print("tests ok")
import sys; sys.exit(1 if m else 0)
P
) || ok=0
VSA_REPO=/tmp/sw/repo VSA_VERIF=/tmp/w/v ${VCB:-/tmp/w/vsacheck} check all 2>&1 | grep -E "^VIOLATION" | sed 's/replay.*//' | tr '\n' ' '
echo
[ $ok = 1 ] && echo "$id: KEPT" || { echo "$id: REJECTED"; mv $d /tmp/sw/rejected-$id-$$; }
git -C /tmp/sw/repo checkout -q -- .
