"""C06: the iterative (Krylov) solver finds exactly the space the dense method would."""
TECHNIQUE = 'runtime monitoring: differential oracle (float64 null space, known ranks) over generated constraint operators, solver entry monitor for large representations'
NOTE = ('Held on the executions explored: the iterative solver run directly on lazy constraint operators with every rank pattern, random initializations, real and complex, and through '
        'representations large enough to be solved iteratively; compared with the float64 null space or with known ranks plus invariance. Loud failures (ConvergenceError, the spectral gap assertion) are allowed and counted.')
import numpy as np
from .. import ref, gen, build
from ..core import Inconclusive

RULE = ("a case is a constraint operator (of a representation, or a synthetic one with a chosen rank around the guesses 10, 20, 40, and spectrum) "
        "given to the iterative solver, or a representation of more than 3e7 constraint entries given to equivariant_basis; nontrivial: the rank "
        "is neither zero nor everything; distinct by operator and rank")
ASSUMPTIONS = ["operators have a spectral gap: smallest nonzero singular value at least 0.05 of the largest (0.1 absolute), as those of the shipped groups",
               "the memory-limit branch (more than 2e9 entries) is not executed"]
NEED = {'solves': 25, 'distinct nontrivial': 16, 'large representations': 1, 'ranks at a guess': 6}
CASE_LIMIT = 400
TOL = 2e-3
RANKS = [0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 10, 10, 11, 15, 19, 20, 20, 21, 25, 38, 40, 41]
# (group, rep, number of invariants) with constraints of more than 3e7 entries
LARGE = [("S(7)", ('T', 4, 0, 0), 15), ("S(8)", ('T', 4, 0, 0), 15), ("RubiksCube()", ('T', 2, 0, 0), 9), ("S(14)", ('T', 3, 0, 0), 5), ("Embed(S(3),30,0,3)", ('V', 0), None), ("O(4)", ('>>', ('T', 3, 0, 0), ('T', 3, 0, 0)), 15),
         ("S(7)", ('>>', ('T', 2, 0, 0), ('T', 2, 0, 0)), 15), ("O(3)", ('T', 7, 0, 0), 0), ("S(7)", ('*', (('T', 2, 0, 0), ('D', ('V', 0)), ('V', 0))), 15)]
REPS = [("S(4)", ('T', 3, 0, 0)), ("S(5)", ('T', 3, 0, 0)), ("S(4)", ('T', 4, 0, 0)), ("SO(3)", ('T', 4, 0, 0)), ("O(3)", ('T', 4, 0, 0)), ("SO(2)", ('T', 4, 0, 0)), ("O(2)", ('T', 5, 0, 0)), ("Cube()", ('T', 2, 0, 0)),
        ("SO(4)", ('T', 4, 0, 0)), ("Z(4)", ('T', 2, 0, 0)), ("D(4)", ('T', 4, 0, 0)), ("C(5)", ('T', 5, 0, 0)), ("SU(2)", ('T', 2, 2, 0)), ("U(2)", ('T', 2, 2, 0)), ("SU(2)", ('T', 4, 0, 0)), ("Roots(3)", ('T', 2, 1, 0)), ("SU(3)", ('T', 3, 0, 0)),
        ("SO11p()", ('T', 4, 0, 0)), ("SL(2)", ('T', 4, 0, 0)), ("Sp(2)", ('T', 2, 1, 0)), ("Sp(1)", ('T', 4, 0, 0)), ("SO13()", ('T', 2, 0, 0)), ("ZksZnxZn(2,2)", ('T', 2, 0, 0)), ("Alt(4)", ('T', 3, 0, 0)), ("Alt(4,True)", ('T', 3, 0, 0)), ("Q8()", ('T', 2, 0, 0)),
        ("Signed(3)", ('T', 4, 0, 0)), ("Prod(SO(2),S(3))", ('T', 2, 0, 0)), ("Trivial(3)", ('T', 2, 0, 0)), ("GL(2)", ('T', 2, 2, 0))]


def cases(tier, seed):
    rng = gen.case_rng('c06', seed)
    if tier == 'quick':
        yield dict(k='large', g=LARGE[0][0], e=LARGE[0][1], r=LARGE[0][2], s=0)
    else:
        for g, e, r in LARGE:
            yield dict(k='large', g=g, e=e, r=r, s=0)
    i = 0
    while True:
        i += 1
        if i % 5 < 2:
            g, e = rng.choice(REPS)
            if rng.random() < .5:
                G = ref.group(g)
                e = gen.rep(rng, [G], rng.choice([30, 80, 150]), depth=2)
            yield dict(k='rep', g=g, e=e, s=rng.randrange(10 ** 9))
        else:
            r = rng.choice(RANKS)
            n = rng.choice([max(r, 1), r + 1, r + rng.randint(1, 40), 60, 150, 300])
            yield dict(k='synth', r=min(r, n), n=n, m=rng.choice([0, 0, 1, 2]), c=rng.random() < .3, s=rng.randrange(10 ** 9), **rng.choice([dict(lo=.1, hi=1), dict(lo=.1, hi=2), dict(lo=.3, hi=1), dict(lo=1, hi=1), dict(lo=1, hi=2), dict(lo=5, hi=rng.choice([15, 18, 30])), dict(lo=6, hi=rng.uniform(19.5, 21)), dict(lo=19.55, hi=19.75)]))
        if i % 300 == 0:
            g, e, r = rng.choice(LARGE)
            yield dict(k='large', g=g, e=e, r=r, s=i)


def solve(C, mon, steep=False):
    import emlp.reps.representation as er
    try:
        return np.asarray(er.krylov_constraint_solve(C))
    except (er.ConvergenceError, AssertionError) as e:
        if steep:   # the first learning rate is too large for these
            mon.count('loud failures of steep constraints')
            raise Inconclusive('the solver reported failure')
        mon.count('loud failures')
        mon.count('loud: ' + type(e).__name__)
        mon.check(mon.counts['loud failures'] < 5 or mon.counts['loud failures'] < mon.counts['solves'], 'iterative:fails',
                  f"the solver fails on most well conditioned constraints: {str(e)[:200]}")
        raise Inconclusive('the solver reported failure')


def compare(Q, N, mon, name, tol=TOL):
    n, r = N.shape
    mon.count('solves')
    if r in (5, 10, 20, 40):
        mon.count('ranks at a guess')
    mon.check(Q.shape == (n, r), 'iterative:rank', f"{name}: {Q.shape} found, the null space is {N.shape}")
    if r:
        Q = Q.astype(complex if np.iscomplexobj(Q) else float)
        mon.err(np.abs(Q.conj().T @ Q - np.eye(r)).max(), 5e-4, 'iterative:orthonormal', f"{name}: not orthonormal")
        mon.err(np.abs(Q @ (Q.conj().T @ N) - N).max(), tol, 'iterative:span', f"{name}: a solution is missing")
        mon.err(np.abs(N @ (N.conj().T @ Q) - Q).max(), tol, 'iterative:wrong', f"{name}: a wrong direction was returned")
    if 0 < r < n:
        mon.seen('nontrivial', (name, r))


def run(case, mon):
    rng = np.random.RandomState(case['s'] % 2 ** 31)
    np.random.seed(rng.randint(2 ** 31))
    if case['k'] == 'synth':
        return synth(case, mon, rng)
    e, G = ref.tup(case['e']), ref.group(case['g'])
    L = build.group(G)
    if case['k'] == 'large':
        return large(case, e, G, L, mon, rng)
    n = ref.size(e, [G])
    N, gap, smax = ref.invariants(e, [G])
    if gap is not None and (gap < .1 or gap / smax < .05):
        raise Inconclusive('no spectral gap')
    r = build.rep(e, [L])
    c, perm = r.canonicalize()
    if getattr(c, 'G', None) is None:   # sums and products of several groups are solved part by part
        return
    Q = solve(c.constraint_matrix(), mon)
    Q = Q[np.argsort(perm)]
    compare(Q, N, mon, f"{ref.show(e)} over {case['g']}")


def synth(case, mon, rng):
    import jax.numpy as jnp
    from emlp.reps.linear_operators import lazify, ConcatLazy
    n, r = case['n'], case['r']
    rnd = lambda *s: rng.randn(*s) + (1j * rng.randn(*s) if case['c'] else 0)
    U, _ = np.linalg.qr(rnd(n, n))
    N, W = U[:, :r], U[:, r:]
    s = rng.uniform(case['lo'], case['hi'], n - r)
    rows = max(n - r, 1)
    left, _ = np.linalg.qr(rnd(rows + 3, rows))
    C = (left[:, :n - r] * s) @ W.conj().T if n > r else np.zeros((1, n))
    C = C.astype(np.complex64 if case['c'] else np.float32)
    if case['m'] == 0 or len(C) < 2:
        op = lazify(jnp.asarray(C))
    else:   # several constraints stacked, as those of several generators; some redundant
        k = case['m'] + 1
        C2 = (rnd(len(C), len(C)) / np.sqrt(len(C)) / 2 @ C).astype(C.dtype)
        op = ConcatLazy([lazify(jnp.asarray(x)) for x in ([C, C2, C][:k])])
    Q = solve(op, mon, case['hi'] > 15)
    compare(Q, N, mon, f"a constraint of rank {n - r} in {n} dimensions" + (", complex" if case['c'] else ""))


def large(case, e, G, L, mon, rng):
    """through equivariant_basis; the rank is known, every vector is checked under group elements"""
    import emlp.reps.representation as er
    used = []
    if hasattr(er, 'krylov_constraint_solve'):
        f = er.krylov_constraint_solve

        def wrapped(C, *a, **k):
            used.append(C.shape)
            return f(C, *a, **k)
        er.krylov_constraint_solve = wrapped
    try:
        r = build.rep(e, [L])
        try:
            Q = build.dense(r.equivariant_basis())
        except (er.ConvergenceError, AssertionError):
            mon.count('loud failures')
            raise Inconclusive('the solver reported failure')
    finally:
        if hasattr(er, 'krylov_constraint_solve'):
            er.krylov_constraint_solve = f
    n = ref.size(e, [G])
    name = f"{ref.show(e)} over {case['g']}"
    if used:
        mon.count('large representations solved iteratively')
    mon.count('large representations')
    mon.count('solves')
    want = case['r']
    if want is not None:
        mon.check(Q.shape == (n, want), 'large:rank', f"{name}: {Q.shape} found, {want} invariants exist")
    if not Q.shape[1]:
        return
    mon.err(np.abs(Q.T @ Q - np.eye(Q.shape[1])).max(), 5e-4, 'large:orthonormal', f"{name}: not orthonormal")
    gs = [ref.elems([G], rng) for _ in range(4)] + [{0: h} for h in G.gens]
    for g in gs:
        mon.err(np.abs(apply(e, g, Q) - Q).max(), TOL, 'large:invariant', f"{name}: a basis vector is not invariant")
    mon.seen('nontrivial', (name, Q.shape[1]))
    # and the projector
    x = rng.randn(n).astype(np.float32)
    y = np.asarray(r.equivariant_projector() @ x)
    mon.close(y, Q @ (Q.T @ x), 1e-3, 'large:projector', f"{name}: the projector is not Q Q^T")


def apply(e, g, X):
    """rho(e)(g) X without forming large matrices (products of base reps and their duals)"""
    fs = factors(e)
    m, mi = g[0], np.linalg.inv(g[0]).T
    d = len(m)
    Y = X.reshape((d,) * len(fs) + (-1,))
    for i, dual in enumerate(fs):
        Y = np.moveaxis(np.tensordot(mi if dual else m, Y, (1, i)), 0, i)
    return Y.reshape(X.shape)


def factors(e):
    t = e[0]
    if t == 'V': return [False]
    if t == 'T': return [False] * e[1] + [True] * e[2]
    if t == 'D': return [not f for f in factors(e[1])]
    if t == '*': return sum([factors(x) for x in e[1]], [])
    if t == '>>': return factors(e[2]) + [not f for f in factors(e[1])]
    raise ValueError(e)
