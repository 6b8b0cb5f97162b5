#!/bin/bash
# Warms the build cache: compiles the harness once and throws the binary away.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
source "$here/env.sh"
dir=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 2
trap 'rm -rf -- "${dir:?}"' EXIT
cd "$here/mc" && go build -tags=fts5 -o "$dir/mc" .
