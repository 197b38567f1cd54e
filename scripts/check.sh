#!/bin/bash
# decide one property: check.sh <property>
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/scripts/env.sh"
build_tool || { echo "cannot build the verifier"; exit 2; }
[ "$1" = C24 ] || exec "$XV" -repo "$XV_REPO" -verif "$here" check "$1"
tmp=$(mktemp -d /tmp/xvc.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
. "$here/scripts/ctrans.sh" "$tmp"
"$XV" -repo "$XV_REPO" -verif "$here" -c "$tmp" check "$1"
