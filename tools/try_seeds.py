"""try_seeds.py [ID...]: runs the check of each planted bug's property on a scratch copy with the bug applied."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(VERIF + '/seeded'))
for sid in ids:
    prop = json.load(open(f'{VERIF}/seeded/{sid}/meta.json'))['property']
    top = tempfile.mkdtemp(prefix=f'try_{sid}_')
    try:
        w = top + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        subprocess.run(['git', 'apply', f'{VERIF}/seeded/{sid}/patch.diff'], cwd=w, check=True)
        shutil.copytree(VERIF, top + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__', 'evidence'))
        t = time.time()
        r = subprocess.run([top + '/verif/check', prop], env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
        lines = r.stdout.strip().splitlines()
        viol = [l for l in lines if l.startswith('VIOLATION')]
        fo = [l.strip()[:160] for l in lines if 'failed obligation' in l or 'failing input' in l]
        print(f'{sid} [{prop}] exit={r.returncode} {viol[0][-40:] if viol else "NOT CAUGHT"} {time.time() - t:.0f}s | ' + ' || '.join(fo[:2]), flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-800:], r.stderr[-800:])
    finally:
        shutil.rmtree(top, ignore_errors=True)
