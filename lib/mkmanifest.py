#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIG = "BigNum.tla: TLC checks the laws on a grid, enumerates histories; recordings of the real code (grid, enumerated and random histories, 3 API layers) validated by TLC against the specification"
NOTE = "Every recorded step is compared with the specification by TLC; the claim covers the executions explored (grid of word-boundary operands, enumerated short histories, seeded random histories; asan+assert and -O2 builds). Trusts java.math.BigInteger as evaluator of the integer operators (cross-checked by ZCheck) and the recorder."
T = {k: (BIG, NOTE) for k in ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C17']}
exec(open(os.path.join(V, 'lib', 'manifest_more.py')).read()) if os.path.exists(os.path.join(V, 'lib', 'manifest_more.py')) else None
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i, technique=T[i][0], level="model_checking", level_note=T[i][1]) for i in ids if i in T],
         not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in T],
         notes="check.py <id> builds /repo's sources and the recorders of harness/ in a scratch directory, runs TLC on the specifications of spec/ and on the recordings. VERIF_TIER selects the depth, VERIF_SEED every random choice. KNOWN_FINDINGS lists findings and fixes.")
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
