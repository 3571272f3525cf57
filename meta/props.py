#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 meta/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'include/fields2cover/types/'
S = 'src/fields2cover/types/'
VN = ('value numbering: canonical summaries of the function and of a reference function are compared '
      '(abstract interpretation with joins and loop summaries, random interpretation of the terms)')
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=VN, note='', check=True, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, check=check, state=state))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, check=False)
    NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(HERE, 'meta', 'list.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
            if p['state']:
                d['anchors']['state'] = [{'name': n, 'meaning': w} for n, w in p['state']]
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [
        {'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
         'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
         'technique': p['technique'], 'level': 'other',
         'level_note': p['note'] or 'Static analysis of the type-resolved program; decides every function of its list on all inputs within the stated modelling assumptions.'}
        for p in PROPS if p['check']],
        'not_applicable': NA,
        'notes': 'No hooks: the checks read the unmodified sources of /repo.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(PROPS), 'properties,', len(m['checks']), 'checks')


if __name__ == '__main__':
    main()
