#!/bin/bash
# run.sh <property id> [quick|thorough]   decide one property against /repo's working tree
# run.sh replay <file>                    run one recorded case again
# Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: no verdict.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
bin="$here/harness/target/release/la-pbt"
. "$here/build.sh" || exit 2
if [ "${1:-}" = replay ]; then
  exec "$bin" replay "${2:?replay file}"
fi
id="${1:?property id}"
tier="${2:-${VERIF_TIER:-quick}}"
exec "$bin" run "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --threads "$(nproc)" \
  --known "$here/known_findings.txt" --evidence "$here/evidence/$id.json" --replays "$here/replays" --plain "$here/harness/target/p/plain/la-pbt"
