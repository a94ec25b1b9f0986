#!/bin/bash
# check.sh PROPERTY [quick|thorough]: discharge every obligation of the property
# for the code that is in /repo now
P="$1"; TIER="${2:-quick}"
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOSUMDB=off
mkdir -p "$D/bin" "$D/evidence"
B="$D/bin/gover"
if [ ! -x "$B" ] || [ -n "$(find "$D/gover" -newer "$B" -name '*.go' -print -quit)" ]; then
  ( cd "$D/gover" && go build -o "$B.$$" . && mv "$B.$$" "$B" ) || exit 3
fi
A=(-prop "$P" -repo /repo -specs "$D/contracts" -evidence "$D/evidence" -known "$D/known_findings.txt" -replay "$D/replay/run.sh")
if [ "$TIER" = thorough ]; then
  "$B" "${A[@]}" -tier thorough -budget 600 -total 3000; r=$?
  # informational: the same obligations with the older solver generation only
  GOVER_Z3=z3 "$B" -prop "$P" -repo /repo -specs "$D/contracts" -known "$D/known_findings.txt" -budget 600 -total 3000 > "$D/evidence/$P.z3-48.txt" 2>&1
  if [ $r = 0 ]; then
    # cross-check of the assumed contracts: the same property on concrete inputs
    bash "$D/replay/run.sh" "$P" > "$D/evidence/$P.replay.txt" 2>&1
    if [ $? = 1 ]; then echo "VIOLATION property=$P replay=$D/evidence/$P.replay.txt"; exit 1; fi
  fi
  exit $r
fi
exec "$B" "${A[@]}" -tier "$TIER" -budget 200
