"""Write properties.jsonl and MANIFEST.json from tools/properties.py and the
harness modules that exist in props/."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from properties import PROPS  # noqa: E402

TECH = ('symbolic execution of the real Python/NumPy/TensorFlow code, '
        'obligations decided by SMT (z3, cvc5 fallback), counterexamples '
        'replayed on the real code')


def main():
    lines, checks, na = [], [], []
    for p in PROPS:
        mech = [{'name': n, 'where': w} for n, w in p['mech']]
        files = sorted({w.split(':')[0] for _, w in p['mech']})
        lines.append(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['for_all']},
            'why_tests_cant': p['why'],
            'anchors': {'files': files, 'mechanism': mech}}))
        assert len(p['title']) <= 80, p['title']
        if os.path.exists(os.path.join(HERE, 'props', p['id'] + '.py')) \
                and not p.get('na'):
            checks.append({
                'property': p['id'],
                'quick_cmd': './check.sh {} quick'.format(p['id']),
                'thorough_cmd': './check.sh {} thorough'.format(p['id']),
                'technique': TECH,
                'level': 'model_checking',
                'level_note': p.get('note') or
                'Every value within the stated bounds; reals for floats, '
                'axiomatised transcendental functions, stubs as listed in '
                'DESIGN.md; trusts the translator (validated by '
                'differential runs) and the solvers.'})
        else:
            na.append({'property': p['id'], 'reason': p.get('na') or
                       'the harness for this property is not built yet'})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
           'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read(),
           '## Properties\n']
    for p in PROPS:
        out.append('### {} {}\n'.format(p['id'], p['title']))
        out.append(p['statement'] + '\n')
        out.append('Bounds: ' + p['for_all'] + '.\n')
        if p.get('how'):
            out.append('How: ' + p['how'] + '\n')
        if p.get('na'):
            out.append('Not applicable: ' + p['na'] + '\n')
    tail = os.path.join(HERE, 'tools', 'design_tail.md')
    if os.path.exists(tail):
        out.append(open(tail).read())
    sd = os.path.join(HERE, 'seeded')
    out.append('## Planted bugs\n\n| id | property | needs | breaks | '
               'caught by |\n|---|---|---|---|---|')
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, 'meta.json')))
        out.append('| {} | {} | {} | {} | {} |'.format(
            n, m['property'], m['needs'], m['what_it_breaks'],
            m.get('caught_by', m['property'])))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')
    print(len(checks), 'checks', len(na), 'not applicable')


main()
