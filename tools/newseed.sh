#!/bin/bash
# tools/newseed.sh ID PROPERTY PKG: makes seeded/ID from a patch at /tmp/s/patch.diff, a Go test at /tmp/s/demo_test.go
# (TestZZDemo in package PKG), and /tmp/s/{needs,breaks}.txt
here=$(cd "$(dirname "$0")/.." && pwd)
s=$here/seeded/$1; mkdir -p "$s"
cp /tmp/s/patch.diff "$s/patch.diff"; cp /tmp/s/demo_test.go "$s/demo_test.go"
python3 - "$s" "$2" <<'PY'
import json,sys
n=open('/tmp/s/needs.txt').read().strip(); b=open('/tmp/s/breaks.txt').read().strip()
json.dump({"property":sys.argv[2],"needs":n,"what_it_breaks":b},open(sys.argv[1]+'/meta.json','w'),indent=1)
PY
cat > "$s/demo.sh" <<DEMO
#!/bin/bash
# Runs the test beside this file inside package $3 of the tree in the current directory.
here=\$(cd "\$(dirname "\$0")" && pwd); repo=\$(pwd)
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export GOROOT=/opt/veriftools/go1.23.12 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=\${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
t=\$(mktemp -d) || exit 1
trap 'rm -rf "\$t"' EXIT
echo "{\"Replace\":{\"\$repo/$3/zz_demo_test.go\":\"\$here/demo_test.go\"}}" > "\$t/overlay.json"
go test -overlay "\$t/overlay.json" -vet=off -count=1 -timeout 240s -run '^TestZZDemo' ./$3
DEMO
chmod +x "$s/demo.sh"
