"""The version of /repo/dcor that the contracts were last proved for.

`baseline.json` has a digest of each module (its syntax tree without docstrings: comments and
layout do not count) and the numbers in it.  A check uses it in two ways, and never as a verdict:
  * obligations that are not discharged are only reported as failed if the tree is another one
    (for the same tree the proof is known; the solver was slow);
  * the numbers that the tree has and the baseline has not are sizes, magnitudes and exponents
    for the search of a failing input.
`python3 tools/baseline.py` writes the file for /repo's current tree."""
import ast
import hashlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, 'baseline.json')
WIDTHS = {'int8': [127, 128], 'uint8': [255, 256], 'int16': [32767, 32768], 'uint16': [65535, 65536], 'float16': [2048, 65504], 'float32': [2 ** 24, 1e-7], 'half': [2048], 'single': [2 ** 24],
          'short': [32767], 'isclose': [1e-8, 1e-5], 'allclose': [1e-8, 1e-5], 'finfo': [2.2e-16], 'eps': [2.2e-16]}


def strip(tree):
    for q in ast.walk(tree):
        body = getattr(q, 'body', None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body[0].value.value = ''
    return tree


def fold(q):
    """Value of an expression of numbers, or None."""
    if isinstance(q, ast.Constant) and isinstance(q.value, (int, float)) and not isinstance(q.value, bool):
        return q.value
    if isinstance(q, ast.UnaryOp) and isinstance(q.op, ast.USub):
        v = fold(q.operand)
        return None if v is None else -v
    if isinstance(q, ast.BinOp):
        a, b = fold(q.left), fold(q.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(q.op, ast.Pow) and abs(b) < 400:
                return a ** b
            if isinstance(q.op, ast.Mult):
                return a * b
            if isinstance(q.op, ast.LShift) and 0 <= b < 64:
                return a << b
            if isinstance(q.op, ast.Div):
                return a / b
            if isinstance(q.op, ast.Add):
                return a + b
            if isinstance(q.op, ast.Sub):
                return a - b
        except (ArithmeticError, TypeError, ValueError):
            return None
    return None


def describe(path):
    with open(path, encoding='utf8') as f:
        tree = strip(ast.parse(f.read()))
    nums = {}
    for q in ast.walk(tree):
        v = fold(q) if isinstance(q, ast.expr) else None
        vs = [v] if isinstance(v, (int, float)) else []
        name = q.attr if isinstance(q, ast.Attribute) else q.id if isinstance(q, ast.Name) else q.value if isinstance(q, ast.Constant) and isinstance(q.value, str) else None
        vs += WIDTHS.get(name, [])
        for v in vs:
            if abs(v) < 1e300:
                k = repr(float(v))
                nums[k] = nums.get(k, 0) + 1
    return dict(digest=hashlib.sha256(ast.dump(tree).encode()).hexdigest(), numbers=nums)


def tree(repo):
    out = {}
    base = os.path.join(repo, 'dcor')
    for d, ds, fs in os.walk(base):
        ds[:] = [k for k in ds if k not in ('__pycache__', 'tests')]
        for k in fs:
            if k.endswith('.py'):
                p = os.path.join(d, k)
                rel = os.path.relpath(p, repo)
                try:
                    out[rel] = describe(p)
                except (SyntaxError, ValueError):
                    out[rel] = dict(digest='', numbers={})
    return out


def compare(repo):
    """(is it the baseline?, new numbers)"""
    try:
        with open(FILE) as f:
            base = json.load(f)
    except (OSError, ValueError):
        return False, []
    now = tree(repo)
    same = {k: v['digest'] for k, v in now.items()} == {k: v['digest'] for k, v in base.items()}
    new = []
    for k, v in now.items():
        old = base.get(k, dict(numbers={}))['numbers']
        for s, c in v['numbers'].items():
            if c > old.get(s, 0) and float(s) not in new:
                new.append(float(s))
    # 0, 1 and 2 say little
    return same, [v for v in new if v not in (0.0, 1.0, -1.0, 2.0)][:40]


if __name__ == '__main__':
    if sys.argv[1:] == ['--show']:
        print(compare(os.environ.get('VERIF_REPO', '/repo')))
    else:
        with open(FILE, 'w') as f:
            json.dump(tree('/repo'), f, indent=1, sort_keys=True)
            f.write('\n')
