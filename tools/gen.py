#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import props

def design(na):
    more = open(os.path.join(H, 'DESIGN.in')).read()
    kf = json.load(open(os.path.join(V, 'known-findings.json')))['findings']
    rec = '\n'.join('* ' + f['record'] for f in kf)
    rows = ['| change | property = check | needs | caught |', '|---|---|---|---|']
    sd = os.path.join(V, 'seeded')
    missed = json.load(open(os.path.join(H, 'missed.json')))
    for i in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, i, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], missed.get(i, 'yes')))
    nas = '\n'.join('* %s: %s' % (x['property'], x['reason']) for x in na) or 'Nothing.'
    for k, v in (('%%FINDINGS%%', rec), ('%%SEEDS%%', '\n'.join(rows)), ('%%NA%%', nas)):
        more = more.replace(k, v)
    open(os.path.join(V, 'DESIGN.md'), 'w').write(more)


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in props.PROPS:
            d = {k: p[k] for k in ('id', 'title', 'statement')}
            d['quantifier'] = {'over': p['over'], 'text': p['for']}
            d['why_tests_cant'] = p['tests']
            d['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}
            if p.get('state'):
                d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in props.PROPS:
        if p.get('na'):
            na.append({'property': p['id'], 'reason': p['na']})
        elif os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                           'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'no check yet'})
    m = {'version': 1, 'setup_cmd': 'python3 sa/db.py setup', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    design(na)
    print(len(checks), 'checks,', len(na), 'not applicable')
main()
