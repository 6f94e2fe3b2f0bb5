#!/bin/bash
# Builds the framework offline: the replay crate, the Kani harness crate and the
# expanded sources. Everything lands in git-ignored folders of /verif.
set -u
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
python3 - <<'P'
import sys
sys.path.insert(0, '.')
from lib import common as c, replayer, kani, unit
ok, err = replayer.build(); print('replay', ok); 
if not ok: print(err[-2000:])
r = kani.run(['s02_masks'], timeout=100, cap=900); print('kani', len(r['harnesses']), 'harnesses')
try: unit.expand(); print('expanded')
except Exception as e: print('expansion failed', e)
P
exit 0
