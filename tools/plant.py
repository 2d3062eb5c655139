#!/usr/bin/env python3
"""Create and verify planted bugs: plant.py SPEC.py [ID...]

SPEC.py defines BUGS, a list of dicts: id, property, file, old, new (or edits: list of
(file, old, new)), needs, breaks, demo (Python source; exits non-zero / raises on the bug).
A bug is written to /verif/seeded/<id>/ when the demo passes on the unchanged tree, fails on
the changed one and every stable test still passes; then the property's quick check is run
on the changed copy and the verdict printed."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ENV = dict(os.environ, PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', PYTHONHASHSEED='0', MPLBACKEND='Agg', TZ='UTC',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
           SETUPTOOLS_SCM_PRETEND_VERSION='0.15.3', PIP_NO_INDEX='1')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '#!/bin/bash\n# run with cwd = the repository\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, t=900, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)


def main():
    spec = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    for b in spec:
        if want and b['id'] not in want:
            continue
        d = f"/verif/seeded/{b['id']}"
        top = tempfile.mkdtemp(prefix='plant', dir='/tmp')
        copy = top + '/repo'
        try:
            subprocess.check_call(['cp', '-a', '/repo', copy])
            subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=copy)
            stage = top + '/demo'
            os.mkdir(stage)
            open(stage + '/demo.py', 'w').write(b['demo'].strip() + '\n')
            open(stage + '/demo.sh', 'w').write(DEMO)
            r0 = run(['bash', stage + '/demo.sh'], copy)
            if r0.returncode:
                print(b['id'], 'DEMO FAILS ON UNCHANGED TREE', r0.stderr[-500:])
                continue
            bad = False
            for f, old, new in b.get('edits') or [(b['file'], b['old'], b['new'])]:
                s = open(f'{copy}/{f}').read()
                if s.count(old) != 1:
                    print(b['id'], f, 'old text occurs', s.count(old), 'times')
                    bad = True
                    break
                open(f'{copy}/{f}', 'w').write(s.replace(old, new))
            if bad:
                continue
            patch = subprocess.run(['git', 'diff'], cwd=copy, capture_output=True, text=True).stdout
            r1 = run(['bash', stage + '/demo.sh'], copy)
            if not r1.returncode:
                print(b['id'], 'DEMO PASSES WITH THE BUG', r1.stdout[-300:])
                continue
            x = top + '/j.xml'
            t = run(['python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-n', '8', '--dist', 'loadfile',
                     '--continue-on-collection-errors', '--disable-warnings', '--tb=short', '-o', 'junit_family=xunit2',
                     '--junitxml=' + x], copy)
            run(['python3', '/opt/vp/results.py', top + '/o.json', 'junit:' + x], copy)
            passed = set(json.load(open(top + '/o.json'))['passed'])
            lost = sorted(STABLE - passed)
            if lost:
                print(b['id'], 'BREAKS TESTS', len(lost), lost[:4], t.stdout[-200:] if len(lost) > 100 else '')
                continue
            if os.path.isdir(d):
                shutil.rmtree(d)
            shutil.copytree(stage, d)
            open(d + '/patch.diff', 'w').write(patch)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            c = run(['bash', '/verif/check.sh', b['property'], 'quick'], '/verif', 1200, dict(ENV, PVLIB_REPO=copy, PVSYM_EVIDENCE=top + '/ev'))
            v = [l for l in c.stdout.splitlines() if l.startswith(f"VIOLATION property={b['property']}")]
            print(b['id'], 'kept;', 'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode,
                  (v or c.stdout.splitlines()[-3:] + c.stderr.splitlines()[-3:])[:3], flush=True)
        finally:
            shutil.rmtree(top)


main()
