#!/bin/bash
# check.sh PROPERTY: builds the simulator from /repo's working tree and decides one property.
# check.sh build: only builds.   check.sh replay FILE: replays a violation.
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Other: the check itself failed.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$VERIF/.build}
GOROOT=/opt/veriftools/go1.27.3
[ -x $GOROOT/bin/go ] || GOROOT=$(go env GOROOT)
export GOROOT PATH=$GOROOT/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod CGO_ENABLED=0 GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-$B/gocache} GOWORK=off
export VERIF_TMP=$B/tmp
umask 022
mkdir -p "$B" "$B/tmp" "$B/gocache" || exit 3
build() {
  # go.mod and go.sum are copied so that the build never rewrites committed files
  cp "$VERIF/sim/go.mod" "$B/go.mod" && cp "$VERIF/sim/go.sum" "$B/go.sum" || return 1
  sed -i "s#=> /repo#=> $REPO#" "$B/go.mod"
  # the key derivation of key stores is slow on purpose: a copy with less work (see tools/overlay.py)
  VERIF_XCRYPTO=$(cd "$VERIF/sim" && go list -modfile "$B/go.mod" -m -f '{{.Dir}}' golang.org/x/crypto) || return 1
  export VERIF_XCRYPTO
  python3 "$VERIF/tools/overlay.py" "$GOROOT" "$B/overlay" "$REPO" "$VERIF/sim" || return 1
  echo "replace golang.org/x/crypto => $B/overlay/xcrypto" >> "$B/go.mod"
  (cd "$VERIF/sim" && go build -modfile "$B/go.mod" -tags verif -overlay "$B/overlay/overlay.json" -o "$B/btpsim.$$" ./btpsim) || return 1
  mv "$B/btpsim.$$" "$B/btpsim"
}
# the contracts and the stub of their platform, for the checks over javascore
buildjava() {
  export VERIF_JAVA=$B/java.$$
  trap 'rm -rf "$B/java.$$"' EXIT
  rm -rf "$VERIF_JAVA" && mkdir -p "$VERIF_JAVA" && bash "$VERIF/java/build.sh" "$VERIF/java" "$REPO" "$VERIF_JAVA"
}
t0=$(date +%s)
case "${1:-}" in
build|C19|C20|C21) J=1 ;;
replay) J=$(grep -c '"scenario": "j-' "$2") ;;
*) J=0 ;;
esac
[ "$J" = 0 ] || buildjava >&2 || { echo "build of the contracts failed" >&2; exit 3; }
build >&2 || { echo "build failed" >&2; exit 3; }
echo "build: $(( $(date +%s) - t0 )) s" >&2
case "${1:-}" in
build) exit 0 ;;
replay) "$B/btpsim" replay "$2"; exit $? ;;
*) "$B/btpsim" check "$1" "$VERIF"; exit $? ;;
esac
