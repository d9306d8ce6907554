"""plant.py [ID...]: builds /verif/seeded/<id>/ from tools/seeds.py, each confirmed in a scratch copy.

A planted bug is kept when the changed tree imports, passes the stable tests, and its
demonstration fails with the change and passes without it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa: E402

DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for this input; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export NUMBA_CACHE_DIR=$work/nb PYTHONPYCACHEPREFIX=$work/pyc PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD
timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, **env):
    e = dict(os.environ, **env)
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True)


def plant(sid):
    s = SEEDS[sid]
    top = tempfile.mkdtemp(prefix=f'seed_{sid}_')
    try:
        w = top + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        d = top + '/demo'
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(s['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        r = sh(f'bash {d}/demo.sh', w)
        if r.returncode:
            return sid, 'demo fails on the unchanged tree: ' + r.stderr[-600:] + r.stdout[-300:]
        for f, old, new in s['edits']:
            p = f'{w}/dcor/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                return sid, f'{f}: {t.count(old)} occurrences of {old!r}'
            open(p, 'w').write(t.replace(old, new))
        r = sh(f'bash {d}/demo.sh', w)
        if r.returncode == 0:
            return sid, 'demo passes with the change'
        why = (r.stderr.strip().splitlines() or [''])[-1]
        work = top + '/work'
        r = sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 -o junit_family=xunit2 --junitxml={top}/j.xml', w,
               NUMBA_CACHE_DIR=work + '/nb', PYTHONPYCACHEPREFIX=work + '/pyc', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        sh(f'/usr/bin/python3 /opt/vp/results.py {top}/out.json junit:{top}/j.xml', w)
        ok = set(json.load(open(top + '/out.json'))['passed'])
        if STABLE - ok:
            return sid, f'tests fail: {sorted(STABLE - ok)[:4]}'
        diff = sh('git diff', w).stdout
        out = f'{VERIF}/seeded/{sid}'
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(f'{d}/{f}', f'{out}/{f}')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        return sid, 'kept: ' + why[:150]
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == '__main__':
    ids = sys.argv[1:] or list(SEEDS)
    with ThreadPoolExecutor(4) as ex:
        for sid, msg in ex.map(plant, ids):
            print(sid, msg, flush=True)
