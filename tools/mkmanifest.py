#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import checks as C
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(HERE,'properties.jsonl'))]
NOTE='Violations are reported only for what was executed: generated inputs, settings, histories and schedules of this run. Trusts the harness oracles (long-double dense reference computations), the OpenMP runtime stand-in, and g++ 13.'
m=dict(version=1,setup_cmd='python3 tools/setup.py',
 hooks=dict(guard='none',enable='no source hooks: checks compile /repo sources with -fsanitize=thread against their own access callbacks, or with address/undefined/thread sanitizers',source_commits=[]),
 checks=[],not_applicable=[],notes='See DESIGN.md. Run from /verif: python3 tools/run_check.py P09 quick')
for p in props:
    i=p['id']
    if i in C.CHECKS:
        m['checks'].append(dict(property=i,quick_cmd='python3 tools/run_check.py %s quick'%i,thorough_cmd='python3 tools/run_check.py %s thorough'%i,evidence_file='evidence/%s.json'%i,technique=C.CHECKS[i]['tech'],level='exploration',level_note=C.CHECKS[i].get('note','')+NOTE if C.CHECKS[i].get('note') else NOTE))
    else: m['not_applicable'].append(dict(property=i,reason=C.NA.get(i,'no check yet')))
json.dump(m,open(os.path.join(HERE,'MANIFEST.json'),'w'),indent=1)
