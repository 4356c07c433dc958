#!/bin/bash
# decides one property on /repo's current working tree: check.sh <id> [thorough]
cd "$(dirname "$0")"
[ "$2" = thorough ] && export VERIF_TIER=thorough
exec python3 lib/core.py "$1"
