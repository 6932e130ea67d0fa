#!/usr/bin/env bash
# check.sh <property> [quick|thorough]: rebuilds from /repo's working tree and decides the property.
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V" || exit 2
bash ./build.sh || exit 2
export VERIF_ROOT="$V" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec "$V/target/release/tsmc" check "$1" "$VERIF_TIER"
