#!/bin/bash
# Warm the build cache; every check builds what it needs by itself.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d /tmp/vsetup.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
cd "$here/driver" && go vet . && go build -o "$tmp/vdrv" . && go build -race -o "$tmp/vdrv-race" .
