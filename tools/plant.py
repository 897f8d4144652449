#!/usr/bin/env python3
"""Development tool (no check uses it): turn bug definitions into /verif/seeded/<id>/ and confirm each one.

usage: plant.py DEFS.py [ID ...]     DEFS.py defines BUGS, a list of dicts with
   id, prop, edits [(file, old, new), ...], needs, breaks, demo (python source), checks (optional list)
For every bug, in a scratch copy of /repo: apply, run the stable tests, run the demo on both trees, run the check.
"""
import json, os, runpy, shutil, subprocess, sys, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
SEED = os.path.join(VERIF, 'seeded')
SCRATCH = '/tmp/mut'
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="${UNARYSIM_PYPATH:-/opt/pypath}" PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 OMP_NUM_THREADS=4\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, env=None, cwd=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='2', MPLBACKEND='Agg')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, capture_output=True, text=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def one(b):
    d = os.path.join(SCRATCH, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/py')
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    os.symlink(d + '/repo', d + '/py/UnarySim')
    out = {'id': b['id'], 'prop': b['prop']}
    try:
        for f, old, new in b['edits']:
            p = os.path.join(d, 'repo', f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            n = s.count(old)
            if n != 1:
                out['error'] = '%s: %d matches of %r' % (f, n, old)
                return out
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', d + '/repo', 'diff'], capture_output=True).stdout
        sd = os.path.join(SEED, b['id'])
        os.makedirs(sd, exist_ok=True)
        open(sd + '/patch.diff', 'wb').write(diff)
        open(sd + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(sd + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(sd + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(sd + '/meta.json', 'w'), indent=1)
        for name, src in b.get('files', {}).items():
            shutil.copy(src, os.path.join(sd, name))
        rc, o = run(['bash', sd + '/demo.sh'], cwd='/repo', timeout=300)
        out['clean'] = rc
        if rc:
            out['clean_out'] = o[-600:]
        rc, o = run(['bash', sd + '/demo.sh'], {'UNARYSIM_PYPATH': d + '/py'}, cwd=d + '/repo', timeout=300)
        out['bad'] = rc
        out['bad_out'] = o.strip().splitlines()[-1:] if o.strip() else []
        if not b.get('notest'):
            files = sorted({'/'.join(t.split('::')[0].split('.')) + '.py' for t in BASE})
            rc, o = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=600', '--continue-on-collection-errors',
                         '--disable-warnings', '--junitxml', d + '/j.xml'] + files, {'PYTHONPATH': d + '/py'}, cwd=d + '/repo', timeout=900)
            ok = {c.get('classname') + '::' + c.get('name') for c in ET.parse(d + '/j.xml').iter('testcase') if len(c) == 0 or all(x.tag.startswith('system') for x in c)}
            out['tests_lost'] = [t for t in BASE if t not in ok]
        out['caught'] = {}
        for c in b.get('checks', [b['prop']]):
            rc, o = run([PY, os.path.join(VERIF, 'check.py'), c], {'UNARYSIM_REPO': d + '/repo', 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'}, cwd=VERIF, timeout=900)
            out['caught'][c] = rc
            out['check_out_' + c] = [l[:300] for l in o.splitlines() if 'VIOLATION' in l][:2] or o.strip()[-300:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if sys.argv[2:]:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for o in ex.map(one, bugs):
            good = 'error' not in o and o.get('clean') == 0 and o.get('bad') not in (0, None) and not o.get('tests_lost')
            print(('OK  ' if good else 'BAD ') + json.dumps(o), flush=True)


main()
