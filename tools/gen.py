#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.json (one source of truth)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(here, 'tools', 'props.py')).read(), ns)
props, na = ns['PROPS'], ns['NA']
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in props + na:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
        }, ensure_ascii=False) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'bash build.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'bash check.sh %s -quick' % p['id'],
        'thorough_cmd': 'bash check.sh %s -thorough' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note'],
    } for p in props],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in na],
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(props), 'claimed', len(na), 'not applicable')
