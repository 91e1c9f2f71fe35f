#!/bin/bash
# Decide one property from the current source of /repo: check.sh <property id>
# Builds the analyser from the committed sources (vendored, offline) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && PATH=$d:$PATH && break
done
export PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GOFLAGS=
[ -d /root/go/pkg/mod ] && export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
cache=${GOCACHE:-/root/.cache/go-build}
tmp=
if ! { mkdir -p "$cache" && [ -w "$cache" ]; } 2>/dev/null; then
  tmp=$(mktemp -d) || exit 2
  cache=$tmp/gocache
fi
export GOCACHE=$cache
bin=$here/evidence/.bin
mkdir -p "$bin"
if ! (cd "$here/tools/comfocheck" && GOFLAGS="-mod=vendor -buildvcs=false" go build -o "$bin/comfocheck.$$" .); then
  echo "cannot build the analyser" >&2
  exit 2
fi
mv -f "$bin/comfocheck.$$" "$bin/comfocheck"
[ -n "$id" ] || exit 0
case $id in
C28|C29|C30|C31|C32)
  py=$(command -v python3 || command -v python3-vt)
  "$py" -B "$here/tools/pycheck.py" -prop "$id" -repo /repo -verif "$here" -tool "$bin/comfocheck" ;;
*)
  "$bin/comfocheck" -prop "$id" -repo /repo -verif "$here" ;;
esac
rc=$?
[ -n "$tmp" ] && { chmod -R u+w "$tmp"; rm -rf "$tmp"; }
exit $rc
