#!/bin/bash
# ./run.sh PROPERTY: decide one property against /repo's working tree (VERIF_TIER, VERIF_SEED)
cd "$(dirname "$0")" || exit 2
exec python3 -m opgv check "$1"
