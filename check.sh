#!/bin/bash
# check.sh <property id>: builds the checker from /verif/checker and decides one property on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
export VERIF_DIR="$here"
mkdir -p "$here/bin" "$here/evidence"
(cd "$here/checker" && go build -o "$here/bin/checker" .) || exit 3
exec "$here/bin/checker" check "$@"
