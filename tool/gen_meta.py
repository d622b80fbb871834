#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the META blocks of the rule modules and NOT_APPLICABLE."""
import ast, json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
RULES = os.path.join(VERIF, 'capylint', 'rules')


def meta_of(f):
    tree = ast.parse(open(os.path.join(RULES, f)).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'META':
            return ast.literal_eval(n.value)
    return None


def main():
    metas = []
    for f in sorted(os.listdir(RULES)):
        if f.startswith('p') and f.endswith('.py'):
            m = meta_of(f)
            if m is not None:
                m['id'] = f[:-3].upper()
                metas.append(m)
    from capylint.not_applicable import NOT_APPLICABLE
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as out:
        for m in metas + NOT_APPLICABLE:
            assert len(m['title']) <= 80, m['title']
            d = {'id': m['id'], 'title': m['title'], 'statement': m['statement'],
                 'quantifier': {'over': m['over'], 'text': m['qtext']}, 'why_tests_cant': m['why'],
                 'anchors': {'files': m['files'], 'mechanism': [{'name': a, 'where': b} for a, b in m['mechanism']],
                             'hook_needed': None}}
            out.write(json.dumps(d) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3 -c "from capylint import facts; facts.build_tool()"',
        'checks': [{
            'property': m['id'],
            'quick_cmd': 'python3 check.py %s quick' % m['id'],
            'thorough_cmd': 'python3 check.py %s thorough' % m['id'],
            'evidence_file': 'evidence/%s.json' % m['id'],
            'technique': m['technique'],
            'level': 'other',
            'level_note': m['level_note'],
        } for m in metas],
        'not_applicable': [{'property': m['id'], 'reason': m['reason']} for m in NOT_APPLICABLE],
        'notes': 'Static analysis only. Every check rebuilds the libclang extractor if needed, re-extracts the program '
                 'from /repo\'s current sources and decides the rules described in DESIGN.md. Known findings are in '
                 'KNOWN_FINDINGS.txt.',
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as out:
        json.dump(man, out, indent=1)
        out.write('\n')
    print(len(metas), 'claimed,', len(NOT_APPLICABLE), 'not applicable')


if __name__ == '__main__':
    main()
