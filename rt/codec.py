"""JSON encoding of the arguments of a runtime contract check (for replay files)."""
from fractions import Fraction

import numpy as np


def enc(v):
    if isinstance(v, np.ndarray):
        lay = 'C'
        if not v.flags.writeable:
            lay = 'readonly'
        elif v.ndim and v.strides[0] < 0:
            lay = 'reversed'
        elif v.ndim > 1 and v.flags.f_contiguous and not v.flags.c_contiguous:
            lay = 'F'
        elif not v.flags.c_contiguous:
            lay = 'strided'
        if v.dtype == object:
            data = [str(Fraction(t)) for t in v.ravel()]
            return {'__nd__': data, 'shape': list(v.shape), 'dtype': 'fraction', 'layout': lay}
        if v.dtype.kind == 'f':
            data = [float(t).hex() if v.dtype.itemsize <= 8 else repr(t) for t in v.ravel()]
            if v.dtype.itemsize > 8:
                data = [np.format_float_scientific(t, unique=True) for t in v.ravel()]
        else:
            data = [int(t) for t in v.ravel()]
        return {'__nd__': data, 'shape': list(v.shape), 'dtype': str(v.dtype), 'layout': lay}
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, tuple):
        return {'__tuple__': [enc(t) for t in v]}
    if isinstance(v, list):
        return [enc(t) for t in v]
    if isinstance(v, dict):
        return {k: enc(t) for k, t in v.items()}
    return v


def dec(v):
    if isinstance(v, dict) and '__nd__' in v:
        dt = v['dtype']
        if dt == 'fraction':
            a = np.empty(len(v['__nd__']), dtype=object)
            a[:] = [Fraction(t) for t in v['__nd__']]
        elif dt.startswith('float') and dt in ('float16', 'float32', 'float64'):
            a = np.array([float.fromhex(t) for t in v['__nd__']], dtype=dt)
        elif dt.startswith(('float', 'longdouble')):
            a = np.array([np.longdouble(t) for t in v['__nd__']], dtype=np.longdouble)
        else:
            a = np.array(v['__nd__'], dtype=dt)
        a = a.reshape(v['shape'])
        lay = v['layout']
        if lay == 'readonly':
            a.flags.writeable = False
        elif lay == 'reversed':
            a = a[::-1].copy()[::-1]
        elif lay == 'F':
            a = np.asfortranarray(a)
        elif lay == 'strided':
            big = np.zeros((a.shape[0] * 2,) + a.shape[1:], dtype=a.dtype)
            big[::2] = a
            a = big[::2]
        return a
    if isinstance(v, dict) and '__tuple__' in v:
        return tuple(dec(t) for t in v['__tuple__'])
    if isinstance(v, dict):
        return {k: dec(t) for k, t in v.items()}
    if isinstance(v, list):
        return [dec(t) for t in v]
    return v
