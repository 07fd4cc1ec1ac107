#!/bin/bash
# bin/replay.sh FILE: replays a recorded counterexample against /repo's working tree (race detector on for shared writes).
. "$(dirname "$0")/env.sh"
f=$(realpath "$1"); cd "$VERIF_ROOT/harness" || exit 2
flags=(); rep=1
grep -q '"map_order": true' "$f" && rep=4000
if grep -q '"kind": "sharedwrite"' "$f"; then flags=(-race); export CGO_ENABLED=1 SYM_RACE=1; rep=60; fi
python3 - "$f" $rep <<'PY' | go run "${flags[@]}" ./cmd/replay
import json,sys
j=json.load(open(sys.argv[1]))
print(json.dumps([{"harness":j["harness"],"inputs":j["inputs"],"tier":j["tier"],"repeat":int(sys.argv[2])}]))
PY
