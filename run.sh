#!/bin/bash
# run.sh PROPERTY quick|thorough: build the driver against /repo's working
# tree and run the check of one property.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_DIR="$here"
tmp=$(mktemp -d /tmp/vdrv.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
race=
[ "$1" = P14 ] && race=-race
if ! (cd "$here/driver" && go build $race -o "$tmp/vdrv" . && cd /repo && go build -o "$tmp/cli" .) >"$tmp/log" 2>&1; then
  cat "$tmp/log" >&2
  echo "the driver does not build" >&2
  exit 3
fi
export VDRV_CLI="$tmp/cli" TMPDIR="$tmp"
"$tmp/vdrv" check "$1" "${2:-quick}"
