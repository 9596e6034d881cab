#!/bin/bash
# check.sh --build | check.sh ID : builds the analyser (offline) and decides property ID on /repo's current source.
cd "$(dirname "$0")" || exit 1
V=$(pwd)
export HOME=/root GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
BIN=$V/bin
mkdir -p "$BIN"
mkdir -p /root/.cache/go-build 2>/dev/null; [ -w /root/.cache/go-build ] || export GOCACHE="$BIN/gocache"
build() { (cd checker && go build -o "$BIN/vc" .) 2>"$BIN/build.log"; }
if ! build; then
  cat "$BIN/build.log"
  [ "$1" = "--build" ] && exit 1
  mkdir -p evidence
  cp "$BIN/build.log" "evidence/$1.violations.txt"
  echo "VIOLATION property=$1 replay=$V/evidence/$1.violations.txt"
  exit 1
fi
[ "$1" = "--build" ] && exit 0
exec "$BIN/vc" -prop "$1" -verif "$V" -repo "${VERIF_REPO:-/repo}" -tier "${VERIF_TIER:-quick}"
