#!/bin/bash
# Builds the checker once (warms the build cache); every check rebuilds it from /repo.
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mc/build.sh "$t"
mc/build.sh "$t" race
"$t/mc" list >/dev/null
