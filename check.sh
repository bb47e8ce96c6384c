#!/bin/bash
# check.sh PROPERTY [REPLAY]: rebuild the check binary from /repo's working tree and decide the property.
# Exit 0: held; 1: violated (with a VIOLATION line); anything else: no answer.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$here/harness/env.sh"
prop=${1:?usage: check.sh PROPERTY [REPLAY]}
work=$(mktemp -d /tmp/gosql-verif-bin.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
cd "$here/harness" || exit 3
if ! go build -o "$work/check" ./cmd/check; then
	echo "error: building the check failed" >&2
	exit 3
fi
"$work/check" -prop "$prop" -verif "$here" ${2:+-replay "$2"}
