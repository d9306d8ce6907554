"""driver.py PROPERTY -- decide one property on /repo's current working tree.

Runs, in parallel and from a private scratch directory,
  * the proof process: pvc/main.py executes the real functions of /repo
    symbolically, generates the obligations of the contracts and discharges them;
  * the runtime contract process: rt/run.py evaluates the same contracts on the
    real (compiled) code with concrete inputs: counterexample search, replay and
    bounded stand-in for what the proof does not reach;
  * lean, on the code-independent lemmas the property's argument uses.
Writes evidence/<id>.json; prints VIOLATION and exits 1, or exits 0.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import baseline  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
EVID = os.path.join(VERIF, 'evidence')


def spawn(cmd, env, log, cwd):
    f = open(log, 'w')
    return subprocess.Popen(cmd, env=env, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def tail(path, n=60):
    try:
        with open(path, errors='replace') as f:
            return ''.join(f.readlines()[-n:])
    except OSError:
        return ''


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f'dcorverif_{prop}_')
    try:
        return run(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, t0, scratch):
    env = dict(os.environ)
    for k in ('NUMBA_DISABLE_JIT', 'PYTHONSTARTUP'):
        env.pop(k, None)
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=scratch + '/pyc', PYTHONHASHSEED='0',
               NUMBA_CACHE_DIR=scratch + '/nb', HOME=scratch, JOBLIB_TEMP_FOLDER=scratch, TMPDIR=scratch,
               OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2', VERIF_SCRATCH=scratch, VERIF_TIER=tier, VERIF_SEED=str(seed),
               VERIF_REPO=REPO, VERIF_VT=VT)
    same, hints = baseline.compare(REPO)
    env['VERIF_HINTS'] = json.dumps(hints)
    rt_s = float(os.environ.get('VERIF_RT_SECONDS', '30' if tier == 'quick' else '420'))
    rt_out, pf_out = scratch + '/rt.json', scratch + '/proof.json'
    pf_limit = 360 if tier == 'quick' else 800
    procs = {}
    if not os.environ.get('VERIF_NO_RT'):
        procs['rt'] = spawn([PY, VERIF + '/rt/run.py', prop, str(rt_s), str(seed), rt_out], env, scratch + '/rt.log', scratch)
    has_proof = os.path.exists(VERIF + '/pvc/main.py') and not os.environ.get('VERIF_NO_PROOF')
    if has_proof:
        procs['proof'] = spawn([PY, VERIF + '/pvc/main.py', prop, pf_out], env, scratch + '/proof.log', scratch)
    lean_res = []
    lean_files = lemmas_of(prop)
    t_lean = time.time()
    for k, (f, thms) in enumerate(lean_files):
        procs[f'lean{k}'] = spawn(['lean', f], dict(os.environ), f'{scratch}/lean{k}.log', scratch)
    limit = {'rt': rt_s * 4 + 300, 'proof': pf_limit}
    status = {}
    while procs:
        for name, p in list(procs.items()):
            rc = p.poll()
            if rc is not None:
                status[name] = rc
                del procs[name]
                if name == 'rt' and (load(rt_out) or {}).get('failures'):
                    # decided: the obligations get a little time to name what fails
                    limit['proof'] = min(pf_limit, time.time() - t0 + 45)
            elif time.time() - t0 > limit.get(name, 600):
                kill(p)
                status[name] = 'timeout'
                del procs[name]
        time.sleep(0.1)
    for k, (f, thms) in enumerate(lean_files):
        log = tail(f'{scratch}/lean{k}.log', 40)
        ok = status[f'lean{k}'] == 0 and 'sorry' not in log and 'error' not in log
        lean_res.append(dict(file=os.path.relpath(f, VERIF), theorems=thms, accepted=ok, log='' if ok else log))

    rt = load(rt_out) or dict(evaluations=0, distinct=0, failures=[], samples=[], kinds={}, finished=False)
    crash = None
    if 'rt' in status and not rt.get('finished') and not rt['failures']:
        cur = load(rt_out + '.cur')
        crash = dict(status=str(status['rt']), case=cur, log=tail(scratch + '/rt.log'))
        if cur is not None:
            # confirm in a fresh process
            rp = scratch + '/crash.json'
            with open(rp, 'w') as f:
                json.dump([cur], f)
            p = spawn([PY, VERIF + '/rt/run.py', prop, '1', str(seed), scratch + '/rt2.json', rp], env, scratch + '/rt2.log', scratch)
            try:
                p.wait(200)
            except subprocess.TimeoutExpired:
                kill(p)
            again = load(scratch + '/rt2.json')
            if again and again.get('finished') and not again['failures']:
                crash['reproduced'] = False
            else:
                crash['reproduced'] = True
    proof = load(pf_out)
    if has_proof and proof is None:
        proof = dict(obligations=[], error=f"proof process ended with {status.get('proof')}\n" + tail(scratch + '/proof.log'), functions=[], assumptions=[], solver_s={})
    return verdict(prop, tier, seed, t0, scratch, env, rt, crash, proof, lean_res, rt_s, same)


def lemmas_of(prop):
    try:
        with open(VERIF + '/lean/lemmas.json') as f:
            table = json.load(f)
    except OSError:
        return []
    if os.environ.get('VERIF_NO_LEAN'):
        return []
    return [(os.path.join(VERIF, 'lean', e['file']), e['theorems']) for e in table if prop in e['properties']]


def replay_path(prop):
    return os.path.join(EVID, f'replay_{prop}.json')


def unproved(obl):
    """Obligations that failed: the contract is false or its proof is out of reach, and nothing else explains it."""
    wrong = {o['name'].rsplit('/', 1)[0] for o in obl if o['name'].endswith('/cross-check') or '/lemma ' in o['name']}
    public = [o for o in obl if o['status'] != 'discharged' and not o.get('helper')]
    if not public:
        return []
    failed = [o for o in obl if o.get('failed') and o['status'] != 'discharged' and not any(o['name'].startswith(w) for w in wrong)]
    return [o for o in failed if not o.get('helper')] + [o for o in failed if o.get('helper')]


def verdict(prop, tier, seed, t0, scratch, env, rt, crash, proof, lean_res, rt_s, same):
    violation = None       # (replay dict, suffix)
    notes = []
    obl = proof['obligations'] if proof else []
    refuted = [o for o in obl if o['status'] == 'refuted']
    undecided = [o for o in obl if o['status'] not in ('discharged', 'refuted')]
    if rt['failures']:
        violation = (dict(kind='failing-input', failures=rt['failures'], replay=[[f['kind'], f['args']] for f in rt['failures']],
                          how=f'{PY} {VERIF}/rt/run.py {prop} 1 {seed} OUT.json THIS_LIST (the "replay" list as a json file)',
                          failed_obligations=[o['name'] for o in refuted]), '')
    elif crash is not None and crash.get('reproduced', True):
        violation = (dict(kind='crash', crash=crash, replay=[crash['case']] if crash.get('case') else []), '' if crash.get('case') else ' no-failing-input-found')
    elif refuted:
        # the obligation is false at a concrete instantiation: look for the failing input on the real code
        native = [o for o in refuted if o['name'].endswith('/counterexample')]
        extra = None if native else deeper(prop, seed, scratch, env, refuted)
        if native:
            # the case's contract was evaluated on the real code at this input, and is false there
            violation = (dict(kind='failing-input', failed_obligations=refuted, replay=[], inputs=[o['detail'] for o in native],
                              how='; '.join(f"VERIF_VERBOSE=1 {PY} {VERIF}/pvc/main.py {prop} OUT.json '{o['name'].rsplit('/', 1)[0]}'" for o in native[:3])
                              + ' (generates the obligations of the case again and runs the real code at the same inputs)'), '')
        elif extra and extra['failures']:
            violation = (dict(kind='failing-input', failures=extra['failures'], replay=[[f['kind'], f['args']] for f in extra['failures']],
                              failed_obligations=refuted), '')
        else:
            violation = (dict(kind='failed-obligation', failed_obligations=refuted), ' no-failing-input-found')
    elif undecided and not same and not os.environ.get('VERIF_NO_RT'):
        failed = unproved(obl)
        extra = deeper(prop, seed, scratch, env, refuted) if any(not o.get('helper') for o in undecided) else None
        if extra:
            rt['evaluations'] += extra['evaluations']
        if extra and extra['failures']:
            violation = (dict(kind='failing-input', failures=extra['failures'], replay=[[f['kind'], f['args']] for f in extra['failures']], failed_obligations=failed), '')
        elif failed:
            violation = (dict(kind='failed-obligation', failed_obligations=failed), ' no-failing-input-found')
    bad_lean = [l for l in lean_res if not l['accepted']]
    if bad_lean:
        notes.append('lemma file not accepted: ' + '; '.join(l['file'] + ': ' + l['log'][-300:] for l in bad_lean))

    discharged = [o for o in obl if o['status'] == 'discharged']
    n_thm = sum(len(l['theorems']) for l in lean_res)
    n_thm_ok = sum(len(l['theorems']) for l in lean_res if l['accepted'])
    proved = bool(obl) and not undecided and not refuted and not bad_lean and not (proof or {}).get('error')
    cov = dict(
        obligations=len(obl) + n_thm,
        discharged=len(discharged) + n_thm_ok,
        checker_cmd=f'/verif/check {prop}  (pvc/main.py: obligations from /repo source, z3 and normal form; lean lean/*.lean)',
        trusted_base=(proof or {}).get('trusted_base', []),
        all_discharged=proved,
        obligations_from_source=len(obl),
        resting_on_a_bounded_contract=sum(o.get('premise') == 'bounded' for o in discharged),
        bounded_contracts=(proof or {}).get('bounded', []),
        functions_under_contract=(proof or {}).get('functions', []),
        backends=(proof or {}).get('backends', {}),
        solver_s=(proof or {}).get('solver_s', {}),
        cover_checks=(proof or {}).get('cover', {}),
        engine_crosscheck=(proof or {}).get('crosscheck', {}),
        obligation_list=[{k: o.get(k) for k in ('name', 'function', 'status', 'backend', 'time')} for o in obl][:400],
        undecided=[dict(name=o['name'], status=o['status'], why=str(o.get('detail', ''))[:500]) for o in undecided],
        lemmas=[dict(file=l['file'], theorems=l['theorems'], accepted=l['accepted']) for l in lean_res],
        bounded=dict(label='bounded: not counted as proved',
                     what='the same contracts evaluated on the real (compiled) code for concrete inputs; counterexample search, and the stand-in for the items in not_proved',
                     seconds=rt_s, evaluations=rt['evaluations'], distinct_nontrivial=rt['distinct'], kinds=rt['kinds']),
        not_proved=(proof or {}).get('not_proved', []),
        samples=rt['samples'],
    )
    if proof and proof.get('error'):
        cov['proof_error'] = proof['error'][-2000:]
    if crash is not None:
        notes.append(f"runtime process ended early: {crash['status']} reproduced={crash.get('reproduced')}")
    if notes:
        cov['notes'] = notes
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov,
              assumptions=(proof or {}).get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=0 if violation is None else 1)
    tmp = os.path.join(EVID, f'.{prop}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f'{prop}.json'))
    print(f'{prop}: obligations {len(discharged)}/{len(obl)} discharged, {len(undecided)} undecided, {len(refuted)} refuted; '
          f'lemmas {n_thm_ok}/{n_thm}; bounded evaluations {rt["evaluations"]}; {ev["wall_s"]} s')
    for o in undecided[:10]:
        print(f"  undecided (bounded stand-in decides): {o['name']}: {str(o.get('detail', ''))[:160]}")
    if proof and proof.get('error'):
        print('  proof process error: ' + proof['error'][-600:])
    for n in notes:
        print('  note: ' + n[:600])
    if violation is not None:
        rp = replay_path(prop)
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, **violation[0]), f, indent=1, default=str)
        for o in (refuted or violation[0].get('failed_obligations', []))[:5]:
            if isinstance(o, str):
                continue
            print(f"  failed obligation: {o['name']}: {str(o.get('detail', ''))[:300]}")
        for fl in violation[0].get('failures', [])[:2]:
            print('  failing input: ' + fl['message'][:400])
        print(f'VIOLATION property={prop} replay={rp}{violation[1]}')
        return 1
    return 0


def deeper(prop, seed, scratch, env, refuted):
    out = scratch + '/deep.json'
    p = spawn([PY, VERIF + '/rt/run.py', prop, '90', str(seed + 7919), out], env, scratch + '/deep.log', scratch)
    try:
        p.wait(240)
    except subprocess.TimeoutExpired:
        kill(p)
    return load(out)


if __name__ == '__main__':
    sys.exit(main())
