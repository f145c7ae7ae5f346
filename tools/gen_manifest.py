#!/usr/bin/env python3
# writes MANIFEST.json from checks.py and properties.jsonl
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from checks import CHECKS
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
na=json.load(open(V+'/tools/not_applicable.json')) if os.path.exists(V+'/tools/not_applicable.json') else {}
checks=[];nap=[]
for p in props:
    if p in CHECKS:
        c=CHECKS[p]
        checks.append(dict(property=p,quick_cmd='python3 run_check.py %s --tier quick'%p,thorough_cmd='python3 run_check.py %s --tier thorough'%p,
          technique=c.get('technique','explicit-state model checking of the real code: bounded exhaustive enumeration of operand states and calls against a reference model'),
          level=c['level'],level_note=c.get('note','Exhaustive inside the stated bounds (DESIGN.md): every enumerated operand state and parameter combination is executed on the real library and compared with an exact reference model; nothing is claimed beyond the bounds. Trusts the reference arithmetic (128-bit/GMP), Givaro field types and OpenBLAS kernels.')))
    else: nap.append(dict(property=p,reason=na.get(p,'check not built yet')))
hooks=dict(guard='__FFLASFFPACK_SEQPARTHRESHOLD / __FFLASFFPACK_DIMKPENALTY / PTRSM_HYBRID_THRESHOLD',enable='the three parallel tuning constants are wrapped in #ifndef; the harness of C18 passes -D<name>=<small value> on the compiler command line, with the macros undefined the library is unchanged',source_commits=['94fe4c7f516d20d71e34381c0c685f329efad084'])
json.dump(dict(version=1,setup_cmd='python3 run_check.py --setup',hooks=hooks,checks=checks,not_applicable=nap,notes='see DESIGN.md'),open(V+'/MANIFEST.json','w'),indent=1)
