"""pvc/main.py PROPERTY OUT.json: obligations of a property, from the source in /repo."""
from __future__ import annotations

import json
import os
import sys
import time

sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
import threading  # noqa: E402

import interp  # noqa: E402

interp.patch_numba()
import dcor  # noqa: E402,F401


JOBS, STUBS = [], {}


def work(k):
    """One case, in a worker process."""
    import cases
    import smt
    c = JOBS[k]
    t1 = time.time()
    before = dict(smt.STATS)
    o = cases.run_case(c, STUBS)
    if os.environ.get('VERIF_VERBOSE'):
        report(c, o, time.time() - t1)
    return k, dict(obls=[q.json() for q in o.obls], used=sorted(o.used), stubbed=sorted(o.stubbed), cover=o.cover, cross=o.cross, notes=o.notes,
                   lemmas=sorted(o.lemmas), stats={q: smt.STATS[q] - before.get(q, 0) for q in smt.STATS})


def run_all(jobs, procs):
    """Outcomes of the cases, in order of completion."""
    JOBS[:] = jobs
    if procs <= 1 or len(jobs) <= 1:
        for k in range(len(jobs)):
            yield work(k)
        return
    import multiprocessing
    again = []
    with multiprocessing.get_context('fork').Pool(min(procs, len(jobs)), maxtasksperchild=12) as pool:
        for k, o in pool.imap_unordered(work, range(len(jobs)), chunksize=1):
            # the order of the terms in a process depends on what it did before: a second chance in a new one
            if any(q['status'] != 'discharged' and ('Timeout' in str(q.get('detail')) or q.get('failed')) for q in o['obls']) and not any(q['status'] == 'refuted' for q in o['obls']):
                again.append((k, o))
            else:
                yield k, o
    yield from again[6:]
    if again:
        with multiprocessing.get_context('fork').Pool(min(procs, len(again)), maxtasksperchild=1) as pool:
            yield from pool.imap_unordered(work, [k for k, _ in again[:6]], chunksize=1)


def main(prop, out, only=None):
    import assume
    import contracts
    t0 = time.time()
    res = dict(obligations=[], functions=[], assumptions=assume.assumptions(prop), trusted_base=list(assume.TRUSTED),
               backends={}, solver_s={}, cover=dict(paths=0, covered=0), crosscheck=dict(compared=0, mismatched=0), not_proved=[], error=None, notes=[], cases=0, bounded=[])
    used, stubbed, lemmas, bounded_fns = set(), set(), set(), set()
    stats = dict(seconds=0.0, queries=0, unknown=0)
    procs = int(os.environ.get('VERIF_PROCS', '6'))

    def record(o):
        res['obligations'] += o['obls']
        res['cases'] += 1
        used.update(map(tuple, o['used']))
        stubbed.update(map(tuple, o['stubbed']))
        if bounded_fns & set(map(tuple, o['stubbed'])):
            for q in o['obls']:
                q['premise'] = 'bounded'
        lemmas.update(o['lemmas'])
        for k in ('paths', 'covered'):
            res['cover'][k] += o['cover'][k]
        for k in ('compared', 'mismatched'):
            res['crosscheck'][k] += o['cross'][k]
        for k in stats:
            stats[k] += o['stats'].get(k, 0)
        res['notes'] += o['notes']

    def flush():
        bk = {}
        for o in res['obligations']:
            if o['status'] == 'discharged':
                bk[o['backend']] = bk.get(o['backend'], 0) + 1
        res['backends'] = bk
        res['solver_s'] = dict(z3=round(stats['seconds'], 2), z3_queries=stats['queries'], z3_unknown=stats['unknown'], wall=round(time.time() - t0, 2))
        res['functions'] = sorted(f'{m}.{q}' for m, q in used | stubbed)
        res['lemmas'] = sorted(lemmas)
        res['modular'] = sorted(f'{m}.{q}' for m, q in stubbed)
        tmp = out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(res, f)
        os.replace(tmp, out)

    # contracts of helpers, in levels: those of a level may use the ones of the levels before
    for level in getattr(contracts, 'HELPERS', {}).get(prop, ()):
        jobs, owner = [], []
        for h in level:
            for c in h.cases():
                if only and only not in c.name and only != 'helpers':
                    continue
                jobs.append(c)
                owner.append(h)
        good = {h: True for h in level}
        outs = []
        for k, o in run_all(jobs, procs):
            outs.append((k, o))
            if any(q['status'] != 'discharged' for q in o['obls']) or not o['obls']:
                good[owner[k]] = False
        for k, o in sorted(outs, key=lambda z: z[0]):
            if not good[owner[k]]:
                # the contract of a helper is a means: its failure is not a violation of the property
                for q in o['obls']:
                    if q['status'] == 'refuted':
                        q['status'] = 'undecided'
                    q['helper'] = True
            record(o)
        for h in level:
            if not good[h] and hasattr(h, 'bounded'):
                good[h], what, count = h.bounded()
                res['bounded'].append(dict(contract=what, instances=count, held=good[h]))
                bounded_fns.update(h.stubs())
            if good[h] or (only and os.environ.get('VERIF_TRUST_HELPERS')):
                STUBS.update(h.stubs())
        flush()
    if only != 'helpers':
        outs = []
        for k, o in run_all([c for c in contracts.PROPS.get(prop, tuple)() if not only or only in c.name], procs):
            record(o)
            flush()
    res['obligations'].sort(key=lambda o: o['name'])
    res['finished'] = True
    flush()
    if os.environ.get('VERIF_VERBOSE'):
        print(prop, res['cases'], 'cases', len(res['obligations']), 'obligations', sum(o['status'] != 'discharged' for o in res['obligations']), 'open', res['backends'], res['solver_s'], flush=True)


def report(c, o, dt):
    bad = [k for k in o.obls if k.status != 'discharged']
    if not bad and not o.notes and os.environ.get('VERIF_VERBOSE') == '1' and dt < 2 and o.cover['paths'] == o.cover['covered']:
        return
    print(f'{c.name}: {len(o.obls) - len(bad)}/{len(o.obls)} paths={o.cover} cross={o.cross} {dt:.2f}s', flush=True)
    for k in bad:
        print(f'    {k.status} {k.name}: {k.detail[:700]}')
    for t in o.notes[:3]:
        print('    note', t[:400])


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    main(sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None)
