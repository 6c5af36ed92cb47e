#!/bin/bash
# build.sh [race]: builds the monitors against /repo's working tree.
# Generated files go to /verif/.build (ignored by git); nothing is fetched.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset PG_HOST VAULT_ADDRESS DYDB_ENDPOINT_URL ESDB_IP_ADDR
b=$here/.build
mkdir -p "$b"
if [ ! -f "$b/goleveldb/.patched" ]; then
  rm -rf "$b/goleveldb.tmp"
  cp -r /root/go/pkg/mod/github.com/syndtr/goleveldb@v1.0.0 "$b/goleveldb.tmp"
  chmod -R u+w "$b/goleveldb.tmp"
  f=$b/goleveldb.tmp/leveldb/storage/file_storage.go
  sed -i 's/^func OpenFile(path string, readOnly bool) (Storage, error) {/func openFileReal(path string, readOnly bool) (Storage, error) {/' "$f"
  grep -q openFileReal "$f"
  cp "$here/harness/goleveldb_hook.go.txt" "$b/goleveldb.tmp/leveldb/storage/verif_hook.go"
  touch "$b/goleveldb.tmp/.patched"
  rm -rf "$b/goleveldb"
  mv "$b/goleveldb.tmp" "$b/goleveldb"
fi
sed "s#/verif/.build#$b#" "$here/harness/go.mod" > "$b/h.mod"
cp "$here/harness/go.sum" "$b/h.sum"
cd "$here/harness"
if [ "$1" = race ]; then
  exec go build -race -modfile="$b/h.mod" -o "$b/vh-race" .
else
  exec go build -modfile="$b/h.mod" -o "$b/vh" .
fi
