#!/bin/bash
# regenerate irv/hints.json: for every loop of every proof case, the names of the candidate invariants that
# survived on the unchanged tree.  Only a starting point: a case that fails with them is redone in full.
cd "$(dirname "$0")/.."
rm -f irv/hints.json
t=$(mktemp -d)
for id in $(ls irv/specs | sed 's/_.*//; s/c/C/' | sort -u); do VERIF_HINTS_OUT=$t/$id.json ./check.py $id 2>&1 | tail -1 | cut -c1-200; done
/opt/veriftools/pyvenv/bin/python - "$t" <<'P'
import json,sys,glob
d={}
for p in sorted(glob.glob(sys.argv[1]+'/*.json')): d.update(json.load(open(p)))
json.dump(d, open('irv/hints.json','w'), indent=0, sort_keys=True)
print(len(d),'cases')
P
rm -rf "$t"
