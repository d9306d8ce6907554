"""Runtime contract process: run.py PROPERTY SECONDS SEED OUT [REPLAY]

Writes OUT (json) after every failure and at the end; OUT.cur names the case
in progress, so that a crash of compiled code can be attributed.
"""
import json
import os
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    prop, seconds, seed, out = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    t0 = time.time()
    import numpy as np
    import checks
    import codec
    import props
    t_import = time.time() - t0
    state = dict(property=prop, evaluations=0, distinct=0, failures=[], samples=[], import_s=t_import, kinds={}, finished=False)
    seen = set()

    def write():
        tmp = out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(state, f)
        os.replace(tmp, out)

    def one(kind, kw):
        enc = codec.enc(kw)
        txt = json.dumps([kind, enc], sort_keys=True)
        with open(out + '.cur', 'w') as f:
            f.write(txt)
        try:
            msg = checks.CHECKS[kind](**kw)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if '/dcor/' in f.filename]
            msg = f'{kind} raised {type(e).__name__}: {e}' + (f' (at {os.path.basename(where[-1].filename)}:{where[-1].name})' if where else ' [in the harness]')
            msg += ''.join(traceback.format_exception(e)[-3:]) if not where else ''
        state['evaluations'] += 1
        state['kinds'][kind] = state['kinds'].get(kind, 0) + 1
        h = zlib.crc32(txt.encode())
        if h not in seen:
            seen.add(h)
            state['distinct'] += 1
        if len(state['samples']) < 3 and state['evaluations'] % 7 == 1 and len(txt) < 1500:
            state['samples'].append([kind, enc])
        if msg:
            state['failures'].append(dict(kind=kind, args=enc, message=msg))
            write()
        return msg

    if len(sys.argv) > 5:
        for kind, enc in json.load(open(sys.argv[5])):
            one(kind, codec.dec(enc))
    else:
        rng = np.random.default_rng([seed, int(prop[1:])])
        # corner cases always run; the random ones until the time is over
        end = time.time() + seconds
        hard = time.time() + max(seconds * 4, 120)
        for i, (kind, kw) in enumerate(props.GENERATORS[prop](rng)):
            if time.time() > end and i > 60 or time.time() > hard:
                break
            one(kind, kw)
            if len(state['failures']) >= 5:
                break
    state['finished'] = True
    state['wall_s'] = time.time() - t0
    write()


main()
