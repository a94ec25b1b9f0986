#!/bin/bash
# builds the verifier from the committed sources (offline)
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOSUMDB=off
mkdir -p "$D/bin" "$D/evidence"
cd "$D/gover" && go build -o "$D/bin/gover" .
