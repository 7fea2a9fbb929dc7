#!/bin/bash
# run.sh ID            decide one property against /repo's working tree
# run.sh ID thorough   the same with further cases, for VERIF_BUDGET seconds (800)
# run.sh --replay FILE run one recorded case again
# Environment: VERIF_SEED, VERIF_TIER (quick, thorough).
here=$(cd "$(dirname "$0")" && pwd)
repo=/repo
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS=
export GOPATH=${GOPATH:-/root/go}
export GOMODCACHE=${GOMODCACHE:-$GOPATH/pkg/mod}
unset GOOS GOARCH GORACE GOGC GOMEMLIMIT GODEBUG
if [ "$1" = --replay ]; then
  file=$2
  id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$file" | head -1)
else
  id=$1
  [ "$2" = thorough ] && export VERIF_TIER=thorough
fi
[ -n "$id" ] || { echo "usage: run.sh ID | --replay FILE"; exit 2; }
tmp=$(mktemp -d /tmp/verifbin.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
trap 'exit 2' INT TERM
export GOCACHE=${GOCACHE:-$HOME/.cache/go-build}
mkdir -p "$GOCACHE" 2>/dev/null && touch "$GOCACHE/.verif" 2>/dev/null || export GOCACHE=$tmp/cache
mod=github.com/msnoigrs/gosudachi
flags="-mod=readonly -buildvcs=false -trimpath=false"
if [ "$id" = C04 ]; then
  (cd "$here/mon" && go build $flags -race -o "$tmp/mon" .) >"$tmp/log" 2>&1
else
  # checkptr: the library converts file bytes with package unsafe
  (cd "$here/mon" && go build $flags "-gcflags=$mod/...=-d=checkptr" -o "$tmp/mon" .) >"$tmp/log" 2>&1
fi || { cat "$tmp/log"; echo "INCONCLUSIVE $id: the monitor does not build against $repo"; exit 2; }
case $id in
C08|C10|C11|C12|C17|C18|C19|C20|C24)
  mkdir "$tmp/bin"
  (cd "$repo" && go build $flags "-gcflags=$mod/...=-d=checkptr" -o "$tmp/bin/" ./dicbuilder ./userdicbuilder ./dicconv ./printdic ./printdicheader ./gosudachicli) >"$tmp/log" 2>&1 ||
    { cat "$tmp/log"; echo "INCONCLUSIVE $id: the commands do not build"; exit 2; }
  ;;
esac
if [ "$1" = --replay ]; then
  "$tmp/mon" replay "$file" "$here" "$tmp/bin"
else
  "$tmp/mon" run "$id" "$here" "$tmp/bin"
fi
