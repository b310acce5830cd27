"""writes properties.jsonl and MANIFEST.json from the table below.  A property with specs/<id>.py or rules/<id>.py is claimed."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, quant, why, files, mech, na=None, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                   anchors=dict(files=['pybrain/' + f for f in files], mechanism=[dict(name=n, where='pybrain/' + w) for n, w in mech],
                                **(dict(observe_at=observe) if observe else {}))), na))


exec(open(os.path.join(HERE, 'dev', 'props_table.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, na in P:
        assert len(d['title']) <= 80, d['title']
        for x in d['anchors']['files']:
            assert os.path.exists('/repo/' + x), x
        f.write(json.dumps(d) + '\n')
checks, nas = [], []
for d, na in P:
    i = d['id']
    s, r = os.path.exists(HERE + '/specs/%s.py' % i), os.path.exists(HERE + '/rules/%s.py' % i)
    if na:
        nas.append(dict(property=i, reason=na))
    elif s or r:
        tech = []
        if s:
            tech.append('gated value-numbering dataflow: effect summaries compared with reference summaries')
        if r:
            tech.append('repository-specific AST/dataflow rules')
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique='; '.join(tech), level='other',
                           level_note=('Static: every path of the listed functions (helpers expanded) is summarised from the current source and each obligation must '
                                       'match the reference; obligations the engine cannot normalise are reported as undecided in the evidence and never raise an alarm. '
                                       'Trusts the reference text, the model of numpy operations and the no-alias assumptions listed in DESIGN.md.') if s else
                                      'Static: the rule is evaluated on every construct it quantifies over in the current source; unresolved constructs are counted, not reported.'))
    else:
        nas.append(dict(property=i, reason='no static check built yet'))
json.dump(dict(version=1, setup_cmd='python3 -c "import ast"', checks=checks, not_applicable=nas,
               notes='Pure static analysis with the Python standard library; nothing of pybrain is imported or executed.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', [n['property'] for n in nas])
