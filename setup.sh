#!/bin/bash
# Build everything once: it fills the build cache and shows that it builds.
set -e
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
VMON_EXTRA="repl api runner" bash "$here/harness/build.sh" "$work/vmon"
bash "$here/harness/build.sh" "$work/vmon-race" -race
"$work/vmon" list
