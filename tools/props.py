#!/usr/bin/env python3
"""The list of properties, and the generator of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, S, U = 'ColorMagic/manipulation/', 'ColorMagic/spaces/', 'ColorMagic/utils/'
P, NA = [], []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), technique='abstract interpretation of the LLVM IR: value-numbered symbolic results, interval and normal-form relations', note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _t=technique, _n=note))


def na(id, title, statement, text, why, files, mech, reason, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _na=reason))


exec(open(V + '/tools/props_list.py').read())

LEVEL_NOTE = 'Every path of the analysed library functions is covered for all inputs in the stated ranges, over the reals up to the tolerance each obligation names; obligations the domain cannot discharge are counted as undecided in the evidence and raise no alarm.'
if __name__ == '__main__':
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    checks = [dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'], technique=p['_t'], level='other', level_note=p['_n'] or LEVEL_NOTE) for p in P if '_na' not in p]
    man = dict(version=1, setup_cmd='python3 build.py', checks=checks, not_applicable=[dict(property=p['id'], reason=p['_na']) for p in P if '_na' in p],
               notes='Static analysis only: the checks compile /repo to LLVM IR and analyse it; nothing of /repo is executed. No hooks are needed.')
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
