#!/bin/bash
# build.sh OUT [go build flags]: build vmon from /repo's working tree.
# Nothing committed is touched: the module files live in a scratch folder.
set -e
out=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
repo=${VMON_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
{
  echo "module vmon"
  echo
  echo "go 1.22"
  echo
  echo "require github.com/raa0121/GoBCDice v0.0.0"
  echo "replace github.com/raa0121/GoBCDice => $repo"
} > "$work/go.mod"
# the same versions of the dependencies as /repo
sed -n '/^require (/,/^)/p' "$repo/go.mod" >> "$work/go.mod"
cp "$repo/go.sum" "$work/go.sum"
cp "$repo/go.mod" "$work/go2.mod"
cp "$repo/go.sum" "$work/go2.sum"
cd "$here"
# The registry of game systems is empty in /repo: an overlay lets the checks
# fill it. If it does not fit the code, the checks do without.
echo "{\"Replace\": {\"$repo/pkg/dicebot/list/verif_registry.go\": \"$here/registry_overlay.go.txt\"}}" > "$work/overlay.json"
go build -modfile="$work/go.mod" -overlay "$work/overlay.json" -tags regoverlay "$@" -o "$out" ./vmon 2>"$work/err" ||
  go build -modfile="$work/go.mod" "$@" -o "$out" ./vmon
for extra in $VMON_EXTRA; do
  case $extra in
    runner)
      # a test binary of the data-driven test runner
      pkg=pkg/dicebot/testing
      base="\"$repo/$pkg/zz_verif_test.go\": \"$here/runner_test.go.txt\""
      echo "{\"Replace\": {$base}}" > "$work/runner1.json"
      echo "{\"Replace\": {$base, \"$repo/$pkg/zz_verif_game_test.go\": \"$here/runner_game_test.go.txt\"," \
        "\"$repo/pkg/dicebot/list/verif_registry.go\": \"$here/registry_overlay.go.txt\"}}" > "$work/runner2.json"
      (cd "$repo" && for f in runner2 runner1; do
        go test -c -vet=off -modfile="$work/go2.mod" -overlay "$work/$f.json" -o "$out-runner" "./$pkg" 2>"$work/err" && exit
      done; cat "$work/err" >&2; exit 1) ;;
    repl) go build -modfile="$work/go.mod" -o "$out-repl" github.com/raa0121/GoBCDice/cmd/GoBCDiceREPL ;;
    api) go build -modfile="$work/go.mod" -o "$out-api" github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI ;;
  esac
done
