#!/bin/bash
# bin/check.sh ID [engine flags]: decides one property on /repo's working tree.
id=$1; shift
. "$(dirname "$0")/env.sh"
"$VERIF_ROOT/bin/build.sh" || { echo "cannot build the engine" >&2; exit 2; }
ulimit -v 28000000 2>/dev/null
exec "$VERIF_ROOT/build/gosym" -id "$id" -root "$VERIF_ROOT" "$@"
