#!/bin/bash
# usage: build.sh OUT [extra go build flags]
# Builds the harness as a package of the repository's own module through a
# build overlay, so /repo itself is never touched.
set -e
. /opt/vp/env.sh
out=$1; shift
repo=${VERIF_REPO:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
ov=$(mktemp)
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/*.go; do
    echo "$sep\"$repo/zzverif/$(basename "$f")\":\"$f\""; sep=,
  done
  echo '}}'
} > "$ov"
cd "$repo"
go build -buildvcs=false -overlay "$ov" "$@" -o "$out" ./zzverif
rc=$?
rm -f "$ov"
exit $rc
