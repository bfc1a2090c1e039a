#!/bin/bash
# check.sh Cxx: decides one property. VERIF_TIER (quick, thorough) and VERIF_SEED select how.
cd "$(dirname "$0")" && exec python3 tools/check.py "$@"
