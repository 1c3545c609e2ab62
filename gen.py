#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for pid in sorted(PROPS):
        p = PROPS[pid]
        assert len(p['title']) <= 80, (pid, len(p['title']))
        o.write(json.dumps({
            'id': pid, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                        'observe_at': p.get('observe', ['public API results and the bytes produced or consumed']),
                        'hook_needed': None},
        }) + '\n')
    for n in NOT_APPLICABLE:
        o.write(json.dumps(n['line']) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --build all',
    'checks': [{
        'property': pid, 'quick_cmd': 'python3 check.py ' + pid,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': PROPS[pid]['technique'], 'level': 'exploration', 'level_note': PROPS[pid]['note'],
    } for pid in sorted(PROPS)],
    'not_applicable': [{'property': n['line']['id'], 'reason': n['reason']} for n in NOT_APPLICABLE],
    'notes': 'No hooks in /repo are needed: every seam (Reader, Callback, IMkvWriter, IMkvReader, FILE*, istream, operator new, time) '
             'exists in the public API or at link time. Replay: python3 check.py --replay evidence/replays/<file>.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
d = open(os.path.join(V, 'DESIGN.in.md')).read()
out = ['## Properties and how each is decided\n']
for pid in sorted(PROPS):
    p = PROPS[pid]
    out.append('### %s %s\n' % (pid, p['title']))
    out.append('*Specified:* ' + p['statement'] + '\n')
    out.append('*Generated and injected:* ' + p['rule'] + '\n')
    out.append('*Decided by:* ' + p['technique'] + '. ' + p['note'] + '\n')
    out.append('*Bounds and cost:* %d runs quick, %d thorough (stops earlier after 3000 s); a run is non-trivial when %s.\n' % (p['runs'][0], p['runs'][1], p['nontrivial']))
    out.append('*Beyond the tests:* ' + p['why'] + '\n')
    out.append('*Real code:* %s. *Stubs:* %s.\n' % ('; '.join(p['real']), '; '.join(p['stub'])))
    if p.get('assumptions'):
        out.append('*Assumes:* ' + '; '.join(p['assumptions']) + '\n')
if NOT_APPLICABLE:
    out.append('### Not applicable\n')
    for n in NOT_APPLICABLE:
        out.append('* %s %s: %s' % (n['line']['id'], n['line']['title'], n['reason']))
d = d.replace('@@PROPS@@', '\n'.join(out))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
sd = os.path.join(V, 'seeded')
caught = json.load(open(os.path.join(V, 'seeded_results.json'))) if os.path.exists(os.path.join(V, 'seeded_results.json')) else {}
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mt = json.load(open(os.path.join(sd, i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, mt['property'], mt['needs'], caught.get(i, '?')))
d = d.replace('@@SEEDED@@', '\n'.join(rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
