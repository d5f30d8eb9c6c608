#!/bin/bash
# Runs one check: run.sh PROPERTY [quick|thorough] ; run.sh --replay FILE
# Builds the simulator from /repo's working tree in a scratch directory.
set -u
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
seed=${VERIF_SEED:-1}
replay=
if [ "${1:-}" = --replay ]; then
  replay=$(realpath "$2") || exit 3
  prop=$(grep -o '"property": *"C[0-9]*"' "$replay" | head -1 | grep -o 'C[0-9]*')
  tier=quick
else
  prop=${1:?property}
  tier=${2:-${VERIF_TIER:-quick}}
fi
W=$(mktemp -d "${TMPDIR:-/tmp}/verifsim.XXXXXX") || exit 3
child=
cleanup() { [ -n "$child" ] && kill -TERM "$child" 2>/dev/null; rm -rf "$W"; }
trap cleanup EXIT
trap 'exit 3' INT TERM HUP
die() { echo "run.sh: $*" >&2; exit 3; }

build() {
  (cd "$here/sim/simgen" && go build -o "$W/simgen" .) || die "instrumenter"
  xid=$(cd "$repo" && go list -m -f '{{.Dir}}' github.com/rs/xid) && [ -d "$xid" ] || die "xid source"
  gover=$(sed -n 's/^go \([0-9.]*\).*/\1/p' "$repo/go.mod" | head -1)
  case "$gover" in ''|1.[0-9]|1.1[0-9]|1.20|1.[0-9].*|1.1[0-9].*|1.20.*) gover=1.21;; esac
  # xid has no sub-packages to share: take its root package only
  mkdir -p "$W/xidsrc" && cp "$xid"/*.go "$W/xidsrc/" && rm -f "$W/xidsrc"/*_test.go && chmod -R u+w "$W/xidsrc"
  printf 'module github.com/rs/xid\n\ngo 1.21\n' >"$W/xidsrc/go.mod"
}

# variant NAME [-plain]: the module tree of one build
variant() {
  local v=$1; shift
  mkdir -p "$W/$v"
  "$W/simgen" "$@" -src "$repo" -dst "$W/$v/cypher" -api -sites "$W/$v/sites1.json" >/dev/null || return 1
  "$W/simgen" "$@" -src "$W/xidsrc" -dst "$W/$v/xid" -base 20000 -sites "$W/$v/sites2.json" >/dev/null || return 1
  sed "s/^go [0-9.]*.*/go $gover/" "$repo/go.mod" >"$W/$v/cypher/go.mod"
  printf 'module github.com/rs/xid\n\ngo 1.21\n' >"$W/$v/xid/go.mod"
  cp -r "$here/sim/harness" "$W/$v/harness"
  cat >"$W/$v/harness/go.mod" <<X
module verifsim/harness

go 1.24

require (
	github.com/manhcuongbk56/cypher-go-dsl v0.0.0
	github.com/rs/xid v1.2.1
	verifsim/simrt v0.0.0
)

replace github.com/manhcuongbk56/cypher-go-dsl => $W/$v/cypher
replace github.com/rs/xid => $W/$v/xid
replace verifsim/simrt => $here/sim/simrt
X
  cp "$repo/go.sum" "$W/$v/harness/go.sum"
}

build
variant sim || die "cannot instrument /repo"
(cd "$W/sim/harness" && go build -o "$W/sim.bin" .) || die "cannot build the instrumented library"
if [ "$prop" = C02 ]; then
  (cd "$W/sim/harness" && go build -race -o "$W/simrace" .) || die "cannot build with the race detector"
fi
if [ "$prop" = C10 ]; then
  variant plainsrc -plain || die "cannot copy /repo"
  (cd "$W/plainsrc/harness" && go build -o "$W/plain" .) || die "cannot build the plain library"
fi
mv "$W/sim" "$W/simsrc"; mv "$W/sim.bin" "$W/sim"
sites=$W/simsrc/sites1.json,$W/simsrc/sites2.json
[ -n "${VERIF_SETUP:-}" ] && { echo "setup: simulator built for $prop"; exit 0; }
bin=$W/sim
if [ -n "$replay" ]; then
  if grep -q '"race_build": true' "$replay"; then
    bin=$W/simrace
    export GORACE="halt_on_error=0 atexit_sleep_ms=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0"
  fi
  "$bin" -mode replay -file "$replay" -prop "$prop" -sites "$sites" -bins "$W" &
  child=$!; wait $child; rc=$?; child=
  case $rc in
    0) exit 0;;
    1) echo "VIOLATION property=$prop replay=$replay"; exit 1;;
    3) exit 3;;
  esac
  # the process did not survive the run
  if grep -q '"kind": "death"' "$replay"; then
    echo "VIOLATION property=$prop replay=$replay"; exit 1
  fi
  exit $rc
fi
"$bin" -mode check -prop "$prop" -tier "$tier" -seed "$seed" -sites "$sites" -bins "$W" -verif "$here" ${VERIF_SECS:+-secs $VERIF_SECS} &
child=$!; wait $child; rc=$?; child=
exit $rc
