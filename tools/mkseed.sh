#!/bin/bash
# mkseed.sh ID PROPERTY PKG(. or dir) < python edit script; the demo test is in /tmp/sd/ID_test.go
# Makes /verif/seeded/ID after confirming that it builds, passes the tests, and the demo tells it apart.
id=$1; prop=$2; pkg=$3; needs=$4; breaks=$5
w=$(mktemp -d /tmp/seedXXXX); cp -a /repo "$w/r"; cd "$w/r"; git checkout -q -- .
python3 - || { echo "edit failed"; rm -rf "$w"; exit 1; }
gofmt -l . 
d=/verif/seeded/$id; mkdir -p $d
git diff > $d/patch.diff
cp /tmp/sd/${id}_test.go $d/demo_test.go.txt
cat > $d/demo.sh <<D
#!/bin/bash
here=\$(cd "\$(dirname "\$0")" && pwd)
export PATH=/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin HOME=\${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
t=\$(mktemp -d) || exit 2
trap 'rm -rf "\$t"' EXIT
cp "\$here/demo_test.go.txt" "\$t/demo_test.go"
echo "{\"Replace\":{\"\$PWD/$pkg/zz_demo_test.go\":\"\$t/demo_test.go\"}}" | sed 's#/\./#/#' >"\$t/ov.json"
TMPDIR=\$t timeout 200 go test -vet=off -count=1 -timeout 120s -overlay "\$t/ov.json" -run '^TestDemo\$' ./$pkg
D
chmod +x $d/demo.sh
python3 - "$prop" "$needs" "$breaks" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
ok=1
go build ./... || ok=0
go test -count=1 ./... 2>&1 | grep -v "no test files" | grep -v "^ok" && { echo "tests fail"; }
if bash $d/demo.sh >"$w/log1" 2>&1; then echo "DEMO PASSES WITH PATCH"; ok=0; fi
git checkout -q -- .
if ! bash $d/demo.sh >"$w/log2" 2>&1; then echo "DEMO FAILS WITHOUT PATCH"; cat "$w/log2"; ok=0; fi
grep -m3 -E "FAIL|demo_test|panic" "$w/log1"
[ $ok = 1 ] && echo "seed $id OK" || { echo "seed $id BAD"; }
rm -rf "$w"
