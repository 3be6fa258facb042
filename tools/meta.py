#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CG = 'src/ringhopper-structs-codegen/src/lib.rs'
JS = 'src/ringhopper-definitions/json'
PRM = 'src/ringhopper-primitives/src'
RH = 'src/ringhopper/src'
INV = 'src/invader/src'
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level='other', state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, level=level, state=state))


def na(id, title, statement, over, text, why, files, mech, observe, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=None, note=None, level=None, state=None))
    NA.append(dict(property=id, reason=reason))


TRUST = ('Sound over the evaluated bodies up to the trusted base: rustc\'s MIR, the models of std/byteorder functions in rhsa/models.py, and the independent reading of the JSON definitions. '
         'Fails closed: a body the evaluator cannot follow is reported.')

exec(open(os.path.join(HERE, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                a['state'] = p['state']
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'cd /verif/driver && cargo +nightly build --offline', 'checks': [], 'not_applicable': NA,
         'notes': 'Static analysis only: every check recompiles /repo under a rustc driver that dumps type-checked MIR, and decides its property on that dump; see DESIGN.md.'}
    for p in sorted(P, key=lambda p: p['id']):
        if p['technique']:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                                'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
