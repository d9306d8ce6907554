"""What the proofs take on trust; copied into every evidence file."""
GENERAL = [
    'floating point arithmetic is treated as real arithmetic (rounding, overflow to inf and underflow are not modelled; the bounded layer runs the real floats)',
    'integers are mathematical integers: in compiled code every *, ** and << has an obligation that the result fits in 64 bits (for n < 2^31); '
    'indexes in arrays narrower than 64 bits are out of reach (undecided); integer samples carry a marker and any +, -, *, sum or @ in their own type fails the contract',
    'models of the array primitives of NumPy and array_api_compat (pvc/npmodel.py): each is compared with the real library at the sampled inputs of every case (crosscheck in the evidence)',
    'numba executes the Python semantics of the functions it compiles, given arguments that match the declared signatures (the matching is an obligation)',
    'inputs contain no NaN and no infinity (NaN arises only where the model of an operation says so, e.g. 0/0)',
    'warnings are not errors; memory suffices; no other thread changes the arguments',
    'the engine itself (pvc/*.py), z3 and sympy as used by it, and the Lean kernel with Mathlib',
]
EXTRA = {
    'C08': ['numpy.linalg.eigh(C) gives an orthogonal V and w with C = V diag(w) V^T (external contract); w > 0 because the covariance matrices are nonsingular (premise of the property)'],
    'C15': ['RandomState.permutation and Generator.permutation give a permutation of range(n), a new one in each call (external contract)',
            'joblib.Parallel(n_jobs=k)(generator of delayed calls) gives the list of the results in order, whatever k is (external contract)'],
    'C16': ['as C15 for the generator of permutations (not used with num_resamples=0)'],
    'C17': ['scipy.stats.t.cdf/sf are an uninterpreted distribution function F and 1 - F'],
    'C18': ['numba.guvectorize applies the inner function to each row (external contract; the signature is checked)'],
    'C20': ['array_api_strict stands for "another Array API library": its namespace has the standard functions only, with NumPy values'],
}
for k in ('C01', 'C02', 'C05', 'C07', 'C09', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17'):
    EXTRA.setdefault(k, []).append('scipy.spatial.distance.cdist(x, y) computes sqrt(sum_k (x_ik - y_jk)^2), or its square for "sqeuclidean" (external contract)')
for k in ('C03', 'C04', 'C05', 'C07', 'C08', 'C18', 'C19', 'C20'):
    EXTRA.setdefault(k, []).append('numpy.argsort gives a permutation that puts the values in ascending order, ties in any order (external contract)')
TRUSTED = ['pvc: symbolic executor, normal form and prover written for this task (no Python verifier is installed here)', 'z3 4.x (python binding)', 'sympy (algebraic identities)',
           'Lean 4 and Mathlib (lemmas)', 'CPython ast module (parsing of /repo source)']


def assumptions(prop):
    return GENERAL + EXTRA.get(prop, [])
