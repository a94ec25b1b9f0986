#!/bin/bash
# concrete replay of property $1 against the code in /repo: exit 1 if the real
# code misbehaves on a concrete input, 0 if not, 3 if the replay could not run
P="$1"
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
REPO="${VERIF_REPO:-/repo}"
T="$(mktemp -d /tmp/replay.XXXXXX)"
trap 'rm -rf "$T"' EXIT
rc=0
ran=0
for d in "$D"/*/; do
  pkg="$(basename "$d")"
  f="${d}zz_replay_test.go"
  [ -f "$f" ] || continue
  grep -q "func TestReplay_$P(" "$f" || continue
  ran=1
  printf '{"Replace":{"%s/%s/zz_replay_test.go":"%s"}}' "$REPO" "$pkg" "$f" > "$T/o.json"
  mkdir -p "$T/w"
  race=; grep -q "^// replay-race: $P" "$f" && race=-race
  ( cd "$REPO" && go test $race -overlay "$T/o.json" -c -o "$T/t.bin" "./$pkg" ) > "$T/b" 2>&1 || { echo "replay harness does not build against $pkg:"; head -20 "$T/b"; [ $rc = 0 ] && rc=3; continue; }
  ( cd "$T/w" && GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=0" timeout 200 "$T/t.bin" -test.run "^TestReplay_$P\$" -test.timeout 190s ) > "$T/out" 2>&1
  r=$?
  if [ -n "$race" ]; then
    # races on fields no property protects (timing statistics) are left out
    python3 "$D/races.py" "$T/out" > "$T/races"
    if grep -q '^DATA RACE' "$T/races"; then rc=1; head -60 "$T/races"; elif grep -q -- '^--- FAIL' "$T/out" && ! grep -E '^\s+\S+\.go:[0-9]+:' "$T/out" | grep -vq 'race detected'; then r=0; fi
  fi
  grep -E '^\s*(zz_replay|---|panic|fatal|ok|PASS|FAIL)' "$T/out" | tail -c 6000
  if [ $r = 1 ] || [ $r = 2 ]; then rc=1; elif [ $r != 0 ] && [ $rc = 0 ]; then rc=3; fi
done
[ $ran = 0 ] && exit 3
exit $rc
