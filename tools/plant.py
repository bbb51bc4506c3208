"""Make planted bugs from definitions: plant.py DEFS.py [ID ...]

DEFS.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], demo (Python source), needs, breaks.
Each is applied to a scratch copy of /repo, tested there, demonstrated, written to seeded/, and checked.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
HEAD = "import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\nimport math\nimport numpy as np\nimport warnings\nwarnings.simplefilter('ignore')\nfrom skspatial.objects import *\n\n"
SH = '#!/bin/bash\n# Run with cwd at the repository.\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nM=$(mktemp -d)\ntrap \'rm -rf "$M"\' EXIT\nMPLCONFIGDIR=$M exec_() { /opt/venv/bin/python "$@"; }\nexport MPLCONFIGDIR=$M\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
SH = SH.replace('MPLCONFIGDIR=$M exec_() { /opt/venv/bin/python "$@"; }\n', '')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()


def env(copy, extra=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(extra or {})
    return e


def run(bug):
    work = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    out = {'id': bug['id'], 'property': bug['property']}
    try:
        copy = f'{work}/repo'
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        for file, old, new in bug['edits']:
            path = f'{copy}/src/skspatial/{file}'
            text = open(path).read()
            if text.count(old) != 1:
                return out | {'status': f'EDIT matches {text.count(old)}: {old[:60]!r}'}
            open(path, 'w').write(text.replace(old, new))
        diff = subprocess.run(['git', '-C', copy, 'diff'], capture_output=True, text=True).stdout
        for file in {e[0] for e in bug['edits']}:
            base = subprocess.run(['git', '-C', '/repo', 'show', f'{BASE}:src/skspatial/{file}'], capture_output=True, text=True).stdout.splitlines()
            part = diff.split(f'+++ b/src/skspatial/{file}\n')[1].split('\ndiff --git')[0]
            removed = [x[1:] for x in part.splitlines() if x.startswith('-')]
            alien = [x for x in removed if x.strip() and x not in base]
            if alien:
                out['alien'] = alien
        demo = f'{work}/demo'
        os.mkdir(demo)
        open(f'{demo}/demo.py', 'w').write(HEAD + bug['demo'].strip('\n') + '\n')
        open(f'{demo}/demo.sh', 'w').write(SH)
        os.chmod(f'{demo}/demo.sh', 0o755)
        ok = subprocess.run(['bash', f'{demo}/demo.sh'], cwd='/repo', capture_output=True, text=True, env=env(copy))
        bad = subprocess.run(['bash', f'{demo}/demo.sh'], cwd=copy, capture_output=True, text=True, env=env(copy))
        out['demo'] = (ok.returncode, bad.returncode)
        out['demo_err'] = (ok.stderr[-300:] if ok.returncode else '') + ' | ' + (bad.stderr.strip().splitlines() or [''])[-1][:160]
        if ok.returncode or not bad.returncode:
            return out | {'status': 'DEMO'}
        junit = f'{work}/junit.xml'
        subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '--doctest-modules',
                        '--doctest-glob=README.md', '-o', 'junit_family=xunit2', f'--junitxml={junit}', 'tests', 'src', 'README.md'],
                       cwd=copy, capture_output=True, env=env(copy, {'PYTHONPATH': f'{copy}/src', 'MPLCONFIGDIR': f'{work}/mpl'}))
        subprocess.run(['python3', '/opt/vp/results.py', f'{work}/out.json', f'junit:{junit}'], capture_output=True)
        missing = sorted(STABLE - set(json.load(open(f'{work}/out.json'))['passed']))
        if missing:
            return out | {'status': f'TESTS {len(missing)}: {missing[:2]}'}
        if not bug.get('dry'):
            dest = f"{VERIF}/seeded/{bug['id']}"
            shutil.rmtree(dest, ignore_errors=True)
            os.makedirs(dest)
            open(f'{dest}/patch.diff', 'w').write(diff)
            for f in ('demo.py', 'demo.sh'):
                shutil.copy(f'{demo}/{f}', dest)
            json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(f'{dest}/meta.json', 'w'), indent=1)
        out['caught'] = []
        for prop in [bug['property']] + bug.get('also', []):
            r = subprocess.run(['./check', prop], cwd=bug.get('verif', VERIF), capture_output=True, text=True,
                               env=env(copy, {'VERIF_REPO': copy, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'VERIF_OUT': work}))
            v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            out['caught'].append((prop, r.returncode, (r.stdout + r.stderr).strip()[:300]))
        return out | {'status': 'ok'}
    finally:
        if work.startswith('/tmp/plant_'):
            shutil.rmtree(work, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns['BUGS'] if not sys.argv[2:] or b['id'] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(run, bugs):
            c = ' '.join(f"{p}:{'CAUGHT' if rc == 1 else 'MISSED' if rc == 0 else 'ERR' + str(rc)}" for p, rc, _ in r.get('caught', []))
            print(r['id'], r['status'], c, '' if r['status'] == 'ok' else r.get('demo', ''), r.get('demo_err', '') if r['status'] == 'DEMO' else '', 'ALIEN ' + str(r['alien']) if r.get('alien') else '')
            for p, rc, text in r.get('caught', []):
                if rc not in (0,):
                    print('     ', text[:260].replace('\n', ' / '))
            sys.stdout.flush()


main()
