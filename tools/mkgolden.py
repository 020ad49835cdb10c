"""
Writes data/stored.json: what the released code (the pinned commit, unpacked at argv[1]) means by the indices it stores.
For each kind and n: the permutation word (GNF) or components (DGNF) of each index.
"""
import json
import sys
sys.path.insert(0, sys.argv[1])
from peyl import braid  # noqa: E402

out = {'GNF': {}, 'DGNF': {}}
for n in (2, 3, 4, 5, 6):
    out['GNF'][n] = [list(p.word) for p in braid.PermTable.create(n).divs]
    out['DGNF'][n] = [list(p.to_permutation().word) for p in braid.NParTable.create(n).divs]
print(json.dumps(out))
