#!/bin/bash
# run.sh PROPERTY [quick|thorough] [gosym flags]   run one check
# run.sh replay FILE                               replay a violation natively
# run.sh setup                                     build the machinery
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
# rebuild the engine when it is missing or older than its sources
if [ ! -x "$here/bin/gosym" ] || [ -n "$(find "$here/gosym" -newer "$here/bin/gosym" -name '*.go' -print -quit)" ]; then
  mkdir -p "$here/bin"
  tmpbin="$here/bin/gosym.$$"
  (cd "$here/gosym" && go build -o "$tmpbin" .) || { echo "cannot build the engine" >&2; exit 2; }
  mv "$tmpbin" "$here/bin/gosym"
fi
case "${1:-}" in
  setup) exit 0 ;;
  replay) exec "$here/bin/gosym" -repo /repo -verif "$here" -replay "$2" ;;
esac
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
shift; [ $# -gt 0 ] && shift
exec "$here/bin/gosym" -repo /repo -verif "$here" -prop "$prop" -tier "$tier" "$@"
