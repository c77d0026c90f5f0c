#!/bin/bash
# builds the checker (offline) from the committed files
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
mkdir -p "$here/bin" "$here/evidence"
cd "$here/checker" && go build -o "$here/bin/checker" .
