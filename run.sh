#!/bin/bash
# run.sh PROPERTY TIER [--case-file FILE]: builds the explorer against /repo's
# current working tree and runs one property's check.
cd "$(dirname "$0")" || exit 3
VERIF_ROOT=$(pwd); export VERIF_ROOT
. ./env.sh
prop=$1; tier=${2:-quick}; shift 2
mkdir -p "$VERIF_ROOT/build"
bin="$VERIF_ROOT/build/mc.$$"
inst="$VERIF_ROOT/build/inst.$$"
gen="$VERIF_ROOT/build/gen.$$"
log="$VERIF_ROOT/build/build.$$.log"
trap 'rm -rf "$bin" "$inst" "$gen" "$log"' EXIT
fail() {
  cat "$log" >&2
  echo "the tree in /repo (or the harness) does not build" >&2
  exit 3
}
built=no
case $prop in
P06) # scheduling points before every statement of the library
  (cd mc && go run ./cmd/instrument /repo "$inst" && go build -overlay "$inst/overlay.json" -tags instrumented -o "$bin" ./cmd/mc) 2>/dev/null && built=yes
  ;;
P13|P14|P18) # code generated by the tree for all the enumerated types
  cli=; [ "$prop" = P18 ] && cli=cli
  (cd mc && go run ./cmd/gentypes "$gen" "$tier" "$VERIF_ROOT" $cli) 2>"$log" || fail
  (cd "$gen" && go build -gcflags='verif/gen/...=-N -l -e' -o "$bin" ./driver) 2>"$log" || fail
  built=yes
  ;;
esac
if [ $built = no ]; then
  (cd mc && go build -o "$bin" ./cmd/mc) 2>"$log" || fail
fi
args=()
if [ "$1" = "--case-file" ]; then args=(-case-file "$2"); fi
"$bin" -property "$prop" -tier "$tier" "${args[@]}"
