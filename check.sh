#!/bin/bash
# check.sh PROPERTY: build the monitors from /repo's working tree and run the
# check of a property (VERIF_TIER, VERIF_SEED). Exit 0: the property held on
# everything explored; 1: violated; anything else: the check gave no answer.
prop=$1
here=$(cd "$(dirname "$0")" && pwd)
export VMON_DIR=${VMON_DIR:-$here} VMON_REPO=${VMON_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
# a build cache that can be written
if ! { mkdir -p "$GOCACHE" && touch "$GOCACHE/.w"; } 2>/dev/null; then
  export GOCACHE=$work/gocache
fi
rm -f "$GOCACHE/.w" 2>/dev/null
flags=()
case $prop in
  C15) flags=(-race) ;;
  C20) export VMON_EXTRA=repl ;;
  C22) export VMON_EXTRA=api ;;
  C28) export VMON_EXTRA=runner ;;
esac
bash "$here/harness/build.sh" "$work/vmon" "${flags[@]}" || { echo "the monitors do not build"; exit 3; }
"$work/vmon" run "$prop"
