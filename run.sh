#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [extra flags]
#        run.sh replay FILE
# Builds the checker against /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
dir=$(pwd)
. /opt/vp/env.sh 2>/dev/null || export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
export GOFLAGS=-mod=mod
prop=$1; shift
out=$dir/out/bin; mkdir -p "$out"
bin=$out/check-$$
trap 'rm -f "$bin"' EXIT
flags=
export GORACE="halt_on_error=1 exitcode=66"
[ "$prop" = C16 ] && flags=-race
case "$prop" in replay) file=$1; case "$file" in *C16*) flags=-race;; esac;; esac
# For these properties the Go runtime is built with an overlay which allows to
# control the order of map iterations (see DESIGN.md).
key=$prop; [ "$prop" = replay ] && key=$file
case "$key" in *C01*|*C07*|*C10*|*C15*|*C19*|*C20*)
  src=$(go env GOROOT)/src; ov=$out/overlay-$$; mkdir -p "$ov"
  trap 'rm -f "$bin"; rm -rf "$ov"' EXIT
  if [ "$(grep -c '^	it\.\(entry\|dir\)Offset = rand()$' "$src/internal/runtime/maps/table.go" 2>/dev/null)" = 2 ]; then
    sed 's/^\(	it\.[a-z]*Offset = \)rand()$/\1verifIterRand()/' "$src/internal/runtime/maps/table.go" >"$ov/table.go"
    cat >>"$ov/table.go" <<'EOF'

// VerifIterOrder, if positive, fixes the start offset of map iterations.
var VerifIterOrder uint64

func verifIterRand() uint64 {
	if VerifIterOrder > 0 {
		return VerifIterOrder - 1
	}
	return rand()
}
EOF
    { cat "$src/runtime/map.go"; printf '\nfunc VerifMapOrder(k uint64) { maps.VerifIterOrder = k }\n'; } >"$ov/map.go"
    printf '{"Replace":{"%s":"%s","%s":"%s"}}' "$src/internal/runtime/maps/table.go" "$ov/table.go" "$src/runtime/map.go" "$ov/map.go" >"$ov/o.json"
    flags="-overlay $ov/o.json -tags maporder"
  fi;;
esac
if ! (cd mc && go build $flags -o "$bin" ./cmd/check) >"$out/build-$$.log" 2>&1; then
  cat "$out/build-$$.log"; rm -f "$out/build-$$.log"; echo "build failed"; exit 2
fi
rm -f "$out/build-$$.log"
if [ "$prop" = replay ]; then "$bin" -replay "$file"; exit $?; fi
tier=${1:-${VERIF_TIER:-quick}}; shift
"$bin" -dir "$dir" -prop "$prop" -tier "$tier" "$@"
