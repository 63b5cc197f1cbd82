#!/bin/bash
# check.sh <property id>: decides one property on /repo's current source tree.
here="$(cd "$(dirname "$0")" && pwd)"
if [ ! -x "$here/bin/analyzer" ] || [ -n "$(find "$here/analyzer" -maxdepth 1 -name '*.go' -newer "$here/bin/analyzer" 2>/dev/null | head -1)" ]; then
	bash "$here/build.sh" || exit 2
fi
export VERIF_DIR="$here"
exec "$here/bin/analyzer" "$@"
