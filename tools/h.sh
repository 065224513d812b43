#!/bin/bash
# h.sh ID...: runs quick checks, prints the cost of every harness
cd /verif
for p in "$@"; do ( time python3 check.py $p ) 2>&1 | grep -v "^user\|^sys\|^$"; python3 - <<P
import json;d=json.load(open('evidence/$p.json'))
for h in sorted(d['coverage']['harnesses'],key=lambda h:-h['wall_s'])[:12]: print(' ',h['harness'],h['status'],h['wall_s'],h['symex_s'],h['solver_s'])
P
done
