#!/usr/bin/env python3
"""writes MANIFEST.json from the table below (development helper)"""
import json
T = 'contract-based deductive verification of the real code (contracts on functions, VCs from clang IR, SMT)'
LV = {
 'C01': 'Every obligation of the operation contracts (class invariant, frame, ghost sequence of contents) is discharged for all capacities, positions and counts, for five storage/element instantiations; assumes one producer and one consumer and the peer contract (rely). A bounded native driver replays the contract on the compiled code.',
 'C02': 'Same contracts as C01, occupancy clauses; blocking calls re-observe the queue in every round.',
 'C03': 'Ownership and ordering obligations on every shared access of every operation (rely-guarantee), for all capacities and positions; TSan driver as bounded cross-check. Memory model: release/acquire reasoning by ghost "acquired position", no other weak-memory effects modelled.',
 'C04': 'Contracts of the two batch operations proved for all counts and positions.',
 'C05': 'Contracts of the view and commit operations proved for all positions and counts, heap and doubly mapped storage.',
}
NA = {}
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
try:
    from manifest_more import LV as L2, NA as N2
    LV.update(L2); NA.update(N2)
except ImportError:
    pass
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    if p in LV:
        v = LV[p]
        lvl = 'proof'
        if isinstance(v, tuple):
            lvl, v = v
        checks.append(dict(property=p, quick_cmd='python3-vt vc.py %s --tier quick' % p, thorough_cmd='python3-vt vc.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=T, level=lvl, level_note=v))
na = [dict(property=p, reason=NA.get(p, 'contracts for this part are still being written; not claimed yet')) for p in props if p not in LV]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.path.insert(0, \'engine\'); import symex, loops, lia"', checks=checks, not_applicable=na,
               notes='vc.py PROPERTY compiles /repo sources with clang-18 to IR, generates the obligations of the contracts in specs/, discharges them with z3/cvc5, and replays them natively (native/).'),
          open('/verif/MANIFEST.json', 'w'), indent=1)
