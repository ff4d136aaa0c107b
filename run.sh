#!/bin/bash
# run.sh check <property> <tier> | replay <file> | raw mc arguments
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_DIR="$here" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp="$(mktemp -d /tmp/verif-tool-XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/tools" && go build -o "$tmp/mc" ./mc) || { echo "the checker does not build"; exit 2; }
case "${1:-}" in
 check) shift; p="$1"; t="${2:-quick}"; shift; shift || true; "$tmp/mc" check -prop "$p" -tier "$t" "$@" ;;
 *) "$tmp/mc" "$@" ;;
esac
