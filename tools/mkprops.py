"""writes properties.jsonl (source of truth for titles / statements)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def add(id, title, statement, over, quant, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe))))


I = ['inputs']
C = ['inputs', 'configurations']
H = ['histories', 'inputs']
IR, PS = 'pvlib/irradiance.py', 'pvlib/pvsystem.py'

exec(open(os.path.join(HERE, 'tools', 'props_text.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
