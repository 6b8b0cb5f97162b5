#!/bin/bash
# usage: run.sh <property> [mc flags...]
# Builds the harness from /repo's working tree and runs the check of one property.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop=${1:?usage: run.sh <property> [flags]}
shift
source "$here/env.sh"
bindir=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 2
trap 'rm -rf -- "${bindir:?}"' EXIT
if ! (cd "$here/mc" && go build -tags=fts5 -o "$bindir/mc" .) >&2; then
  echo "harness does not build against /repo" >&2
  exit 2
fi
export TMPDIR=$bindir
"$bindir/mc" "$prop" -verif "$here" "$@"
exit $?
