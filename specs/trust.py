"""The trusted base, as reported in every evidence file."""
BASE = [
    'clang 18 (parsing, overload resolution and template instantiation of the real sources; its JSON AST is the verified text)',
    'the VC generator in /verif/vcg (symbolic executor, loop summaries are themselves proof obligations)',
    'the normal-form prover in /verif/vcg/canon.py and z3 4.8.12',
    'contracts of the C++ standard library containers and <random> distributions (vcg/stdlib.py), Eigen matrix operations',
]
ASSUMPTIONS = [
    'floating point is treated as real arithmetic (rounding, overflow to infinity and NaN are not modelled); -ffast-math licenses the same reading',
    'signed integer overflow is not modelled; unsigned subtraction and conversions are',
    'hyperparameters are valid (positive where the model requires it) and groups satisfy the class invariant that C01 proves of init/add/remove/merge',
    'containers have fewer than 2^31 elements; references passed to one call do not alias unless the code makes them',
    'normal-inverse-Wishart: Eigen matrices are exact real matrices, inverse/determinant/LLT at their algebraic contracts, psi and posterior psi positive definite (assumed), safety obligations of the Eigen expressions not generated',
    'accuracy goals (C11) are decided by interval bisection with mpmath interval arithmetic (outward rounded); log is bounded by its concavity and mpmath enclosures',
    'finite sets and sums (C03, DPD): a subset of a finite set has no more elements, fewer when one is missing; of nonnegative numbers any two are at most the sum of all; iterating over a hash container while erasing only the current key visits every key once (the erased key is the current one is an obligation)',
    'protobuf message accessors (C13) behave as generated from the schema: set/get, add/size/get by index, Clear',
]
MATH = {'fast_log': 'log', 'eric_log': 'log', 'fast_exp': 'exp', 'fast_lgamma': 'log gamma', 'fast_lgamma_nu': 'lgamma(nu/2+1/2)-lgamma(nu/2)', 'fast_log_factorial': 'log n!'}
def uses(contracts):
    out = []
    for k, v in MATH.items():
        if any(c.endswith('::' + k) or ("::%s'" % k) in c for c in contracts):
            out.append('%s taken as the exact function %s on its domain (C11 decides table safety, and their accuracy)' % (k, v))
    return out
