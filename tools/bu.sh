#!/bin/bash
# developer helper: weave + verify a unit (mpc, base, wire)
u=$1; shift
exec /verif/tools/b.sh $(python3 -c "
import sys; sys.path.insert(0,'/verif'); sys.argv=['x']
import check; print(' '.join(t for t in check.UNITS['$u']['templates']))") "$@"
