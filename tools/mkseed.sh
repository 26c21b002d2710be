#!/bin/bash
# mkseed.sh ID PROPERTY PKGDIR: turns the edits in /tmp/seed/repo into seeded/ID.
# Reads the demo test from /tmp/seed/demo_test.go and needs/breaks from /tmp/seed/{needs,breaks}.
set -e
id=$1; prop=$2; pkg=$3
d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/seed/repo diff > $d/patch.diff
test -s $d/patch.diff
cp /tmp/seed/demo_test.go $d/demo_test.go.txt
cat > $d/demo.sh <<X
#!/bin/bash
# Runs the demonstration test inside package $pkg through an overlay; exit 0 when the property holds.
here="\$(cd "\$(dirname "\$0")" && pwd)"
tmp="\$(mktemp -d)"
trap 'rm -rf "\$tmp"' EXIT
cp "\$here/demo_test.go.txt" "\$tmp/zz_demo_test.go"
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/zz_demo_test.go"}}' "\$PWD" "\$tmp" > "\$tmp/overlay.json"
export GOFLAGS= GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
timeout 250 go test -vet=off -count=1 -overlay "\$tmp/overlay.json" -run '^TestDemo' ./$pkg
X
chmod +x $d/demo.sh
python3 - "$prop" <<X
import json,sys
json.dump({"property":"$prop","needs":open('/tmp/seed/needs').read().strip(),"what_it_breaks":open('/tmp/seed/breaks').read().strip()},open('$d/meta.json','w'),indent=1)
X
cd /tmp/seed/repo
echo "== with the change"; $d/demo.sh > /tmp/seed/out1 2>&1 && { echo "DEMO PASSES WITH CHANGE"; exit 1; } || tail -5 /tmp/seed/out1
go build ./... && bash -c 'GOFLAGS= go test ./... 2>&1 | grep -v "no test files"' | grep -v "^ok" | grep -- "--- FAIL\|FAIL" | head
git stash -q; echo "== without"; $d/demo.sh 2>&1 | tail -3; git stash drop -q
