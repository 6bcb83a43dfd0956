"""Writes properties.jsonl and MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry as R
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def row(p):
    assert len(p['title']) <= 80, p['title']
    return json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                       'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                       'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}})


with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for k in sorted(R.PROPS):
        f.write(row(R.PROPS[k]) + '\n')
    for p in R.NA:
        f.write(row(p) + '\n')
m = {'version': 1,
     'setup_cmd': 'bash tools/dump.sh /repo .build/setup-dump',
     'hooks': {'guard': 'none', 'enable': 'the checks read the unmodified sources; no hook exists', 'source_commits': []},
     'checks': [{'property': k, 'quick_cmd': 'python3 sa/main.py %s quick' % k,
                 'thorough_cmd': 'python3 sa/main.py %s thorough' % k,
                 'technique': p['technique'], 'level': 'other', 'level_note': p['how'] + (' ' + p['note'] if p['note'] else '')}
                for k, p in sorted(R.PROPS.items())],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in R.NA],
     'notes': 'Static analysis only: every check dumps the compiler\'s MIR of /repo as it is and decides from it.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
