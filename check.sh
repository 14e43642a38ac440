#!/bin/bash
# Builds the harness against the working tree of /repo and runs the check of one property.
#
#   check.sh C01                the quick tier (or that of VERIF_TIER)
#   check.sh C01 thorough       the thorough tier
#   check.sh replay FILE        evaluates the case of a replay file
#   check.sh setup              builds everything once
#
# Exit 0: the property held on everything explored. Exit 1, with a line "VIOLATION property=<id> replay=<path>": it is
# broken. Anything else: an error of the check.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd) || exit 3
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3 /usr/local/go; do
  if [ -x "$d/bin/go" ]; then export GOROOT=$d PATH=$d/bin:$PATH; break; fi
done
export GOPATH=${GOPATH:-$HOME/go} GOCACHE=${GOCACHE:-$HOME/.cache/go-build}
export GOMODCACHE=${GOMODCACHE:-$GOPATH/pkg/mod}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly CGO_ENABLED=1
unset GODEBUG GORACE GOGC GOMAXPROCS GOMEMLIMIT GOEXPERIMENT
ulimit -c 0

build() { # build OUT FLAGS...
  local out=$1; shift
  local try
  for try in 1 2; do
    (cd "$VERIF/harness" && go build -trimpath -buildvcs=false -ldflags=-checklinkname=0 "$@" -o "$out" .) && return 0
    sleep 1
  done
  # Without the checks of functions which no other check needs (C33, C34).
  (cd "$VERIF/harness" && go build -trimpath -buildvcs=false -ldflags=-checklinkname=0 -tags basic "$@" -o "$out" .) && return 0
  echo "check error: the harness does not build" >&2
  return 3
}

# narrow ID TIER tells whether the check is also run as a program of 32 bits: where lengths, numbers and limits count, and in
# the thorough tier all that fit.
narrow() {
  case $1 in C20 | C26 | C33) return 0 ;; C08 | C17 | C30 | C37 | C27 | C32) return 1 ;; esac
  [ "$2" = thorough ]
}

build32() { # build32 OUT: fails where such programs cannot be built or run
  GOARCH=386 CGO_ENABLED=0 build "$1" && "$1" list >"$DIR/list" 2>&1
}

racy() { case $1 in C08 | C17 | C30 | C37) return 0 ;; esac; return 1; }

DIR=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 3
trap 'rm -rf "$DIR"' EXIT
trap 'exit 3' INT TERM

what=${1:?usage: check.sh ID [TIER]}
case $what in
setup)
  build "$DIR/harness" || exit 3
  build "$DIR/harness-race" -race || exit 3
  exit 0
  ;;
replay)
  file=$(realpath "${2:?usage: check.sh replay FILE}") || exit 3
  id=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
  if racy "$id"; then build "$DIR/harness" -race || exit 3
  elif grep -q '"goarch": *"386"' "$file"; then build32 "$DIR/harness" || exit 3
  else build "$DIR/harness" || exit 3; fi
  GORACE="halt_on_error=1 exitcode=66" "$DIR/harness" replay "$file"
  exit $?
  ;;
esac
tier=${2:-${VERIF_TIER:-quick}}
if racy "$what"; then build "$DIR/harness" -race || exit 3; else build "$DIR/harness" || exit 3; fi
more=()
if narrow "$what" "$tier" && build32 "$DIR/harness32" 2>"$DIR/err32"; then
  # Its evidence file is replaced by the next run, which takes what it says from here.
  "$DIR/harness32" run -prop "$what" -tier quick -seed "${VERIF_SEED:-1}" -verif "$VERIF" >"$DIR/out32"
  rc=$?
  sed 's/^/32 bits: /; s/^32 bits: VIOLATION/VIOLATION/' "$DIR/out32"
  [ $rc = 1 ] && exit 1
  [ $rc = 0 ] && more+=(-also "as a program of 32 bits: $(head -1 "$DIR/out32")")
fi
if [ "$tier" = thorough ] && ! racy "$what"; then
  # Coverage guided fuzzing comes after the other cases.
  (cd "$VERIF/harness" && go test -c -fuzz=FuzzCase -ldflags=-checklinkname=0 -trimpath -buildvcs=false -o "$DIR/fuzzer" . ) || { echo "check error: the fuzzer does not build" >&2; exit 3; }
  more+=(-fuzzer "$DIR/fuzzer" -fuzztime "${VERIF_FUZZTIME:-150s}")
fi
"$DIR/harness" run -prop "$what" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$VERIF" "${more[@]}"
exit $?
