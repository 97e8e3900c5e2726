#!/bin/bash
# run.sh PROPERTY [quick|thorough] : decide one property on /repo's current tree.
# run.sh --replay FILE             : replay a recorded counterexample against the compiled code.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
export VERIF_SEED="${VERIF_SEED:-1}"
bin="$(mktemp -d /tmp/gosymbin.XXXXXX)" || exit 2
trap 'rm -rf "$bin"' EXIT
if [ -x "$here/.bin/gosym" ] && [ -z "$(find "$here/engine" -newer "$here/.bin/gosym" -name '*.go' -print -quit)" ]; then
  cp "$here/.bin/gosym" "$bin/gosym"
else
  (cd "$here/engine" && go build -o "$bin/gosym" .) || { echo "engine build failed" >&2; exit 2; }
fi
if [ "${1:-}" = "--replay" ]; then
  "$bin/gosym" -root "$here" -replay "$2"
  exit $?
fi
"$bin/gosym" -root "$here" -id "$1" -tier "${2:-${VERIF_TIER:-quick}}"
