#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (so that the two stay in step)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, HPP, GO = 'zzzjson.h', 'zzzjson.hpp', 'zzzjson.go'
AI = 'abstract interpretation of the inlined LLVM IR (path-sensitive fixpoint, affine/byte-set domain, specification automaton as ghost state)'
P = []


def p(id, title, stmt, over, text, why, mech, files=(H,), tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech]), _tech=tech, _note=note, _na=na))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

if __name__ == '__main__':
    sys.path.insert(0, HERE)
    from zz.registry import PROPS
    assert len({x['id'] for x in P}) == len(P)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps({k: v for k, v in x.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
    checks = []; na = []
    for x in P:
        if x['id'] in PROPS:
            checks.append(dict(property=x['id'], quick_cmd='bash check.sh %s quick' % x['id'], thorough_cmd='bash check.sh %s thorough' % x['id'],
                               technique=x['_tech'], level='other', level_note=x['_note']))
        else:
            na.append(dict(property=x['id'], reason=x['_na'] or 'no sound static check built for it yet'))
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1)
    print(len(checks), 'claimed', len(na), 'not applicable')
