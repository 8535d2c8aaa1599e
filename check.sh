#!/bin/bash
# check.sh PROP [quick|thorough]   rebuilds everything from /repo's working tree, then searches for a violation of PROP.
# exit 0: held on everything explored; 1: VIOLATION line printed; other: no answer
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; seed="${VERIF_SEED:-1}"
"$here/sim/build.sh" rel dev >&2 || { echo "build failed" >&2; exit 3; }
exec "$here/target/rel/x86_64-unknown-linux-gnu/release/rlsim" check "$prop" --tier "$tier" --seed "$seed" --verif "$here"
