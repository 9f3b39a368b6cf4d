#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties which have a check."""
import json, sys
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/harness')
import check; sys.modules['check'] = check
import checks, subprocess
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--grep=^verify:'], capture_output=True, text=True).stdout.split()
m = {'version': 1, 'setup_cmd': 'true',
     'hooks': {'guard': 'GRAPHQL_VERIFY_PARSE_PARTS',
               'enable': 'the checks compile src/SyntaxTree.cpp with -DGRAPHQL_VERIFY_PARSE_PARTS=<mask of the parse entry points they use>, to halve the time of an instrumented build; without the define everything is compiled',
               'source_commits': hook},
     'checks': [], 'not_applicable': []}
for p in props:
    c = checks.CHECKS.get(p['id'])
    if c:
        m['checks'].append({'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']} quick", 'thorough_cmd': f"python3 check.py {p['id']} thorough",
                            'technique': c['technique'], 'level': c.get('level', 'exploration'), 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': 'no check yet'})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
