#!/bin/bash
# run.sh setup | run.sh <property> <quick|thorough> | run.sh replay FILE
# Everything is rebuilt from the working tree of /repo; build output goes to a scratch
# directory that is removed at the end.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
export HOME="${HOME:-/root}"
work="$(mktemp -d /tmp/soqlverif.XXXXXX)" || exit 2
trap 'rm -rf "$work"' EXIT
build() {
  (cd "$here/engine" && CGO_ENABLED=0 go build -o "$work/soqlcheck" .) || { echo "engine build failed" >&2; exit 2; }
}
case "${1:-}" in
setup)
  build
  (cd "$here/harness" && CGO_ENABLED=0 go vet ./sym ./cmd/replay && CGO_ENABLED=0 go build ./...) || exit 2
  echo "setup ok"
  ;;
replay)
  build
  "$work/soqlcheck" -verif "$here" -work "$work" -replay "$2"
  ;;
*)
  build
  tier="${2:-quick}"
  "$work/soqlcheck" -verif "$here" -work "$work" -prop "$1" -tier "$tier" ${VERIF_ARGS:-}
  ;;
esac
