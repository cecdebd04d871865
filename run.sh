#!/bin/bash
# run.sh PROPERTY [quick|thorough]: analyses /repo's current source for one property.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
[ -x "$here/bin/candicecheck" ] || bash "$here/setup.sh" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
cd "$here" && exec "$here/bin/candicecheck" -dir "$here" -repo "${CANDICE_REPO:-/repo}" "$1"
