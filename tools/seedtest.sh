#!/bin/bash
# Confirms planted bugs: tools/seedtest.sh ID... : the patch applies to a copy of
# /repo, builds, passes the stable tests, and demo.sh passes without and fails with it.
# With CHECKS="C01 C02" it also runs these checks on the patched copy ("own" = the property's).
here=$(cd "$(dirname "$0")/.." && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export GOROOT=/opt/veriftools/go1.23.12 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
for id in "$@"; do
  s=$here/seeded/$id
  d=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo/. "$d/"
  x=$(mktemp -d /tmp/seeddemo.XXXXXX); cp -a "$s/." "$x/"; rm -f "$x"/*.diff "$x"/meta.json
  if [ -z "$SKIPDEMO" ]; then
    (cd "$d" && go build ./... && timeout 300 bash "$x/demo.sh" >"$x/out0" 2>&1); a=$?
  else a=skip; fi
  git -C "$d" apply "$s/patch.diff" || { echo "$id: DOES NOT APPLY"; rm -rf "$d" "$x"; continue; }
  (cd "$d" && go build ./...) || { echo "$id: DOES NOT BUILD"; rm -rf "$d" "$x"; continue; }
  t=skip; b=skip
  if [ -z "$SKIPDEMO" ]; then
    (cd "$d" && timeout 300 bash "$x/demo.sh" >"$x/out1" 2>&1); b=$?
    mongodb=github.com/hyperonym/ratus/internal/engine/mongodb
    (cd "$d" && go test -vet=off -count=1 -p 1 -parallel 1 $(go list -e ./... | grep -vx "$mongodb") && go test -vet=off -count=1 -short "$mongodb") >"$x/test" 2>&1; t=$?
    [ "$a" = 0 ] || tail -5 "$x/out0"
    [ "$b" != 0 ] || tail -5 "$x/out1"
    [ "$t" = 0 ] || grep -E '^\s*--- FAIL|^FAIL|panic' "$x/test" | head -5
  fi
  r=""
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  for c in ${CHECKS:-own}; do
    [ "$c" = own ] && c=$p
    o=$(RATUS_REPO=$d VERIF_BUILD=$d/.vbuild "$here/check" $c 2>&1); e=$?
    r="$r $c=$e"
    [ -n "$VERBOSE" ] && echo "$o" | cut -c1-1500 | tail -6
  done
  echo "$id: demo(clean)=$a demo(bug)=$b tests=$t checks:$r"
  rm -rf "$d" "$x"
done
