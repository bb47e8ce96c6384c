#!/bin/bash
# Fills the build cache with what the checks need.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$here/harness/env.sh"
cd "$here/harness" && go build -o /dev/null ./cmd/check
