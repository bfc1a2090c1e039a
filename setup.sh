#!/bin/bash
# Builds the harness once and parses the specifications.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
import vlib
vlib.build([])
P
cd spec
for m in *Trace.tla MC_*.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
