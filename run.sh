#!/bin/bash
# run.sh PROP: builds against /repo and runs the monitor of one property.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
prop=$1
mkdir -p "$here/evidence"
kind=
case $prop in C20) kind=race;; esac
log=$(mktemp)
if ! bash "$here/build.sh" $kind >"$log" 2>&1; then
  echo "error: build failed" >&2; head -50 "$log" >&2; rm -f "$log"; exit 3
fi
rm -f "$log"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset PG_HOST VAULT_ADDRESS DYDB_ENDPOINT_URL ESDB_IP_ADDR
cd "$here"
exec "$here/.build/vh${kind:+-$kind}" run "$prop"
