"""C17: the equivariance error diagnostic is small for equivariant maps, clearly nonzero for others, and is the relative error it claims."""
TECHNIQUE = 'runtime monitoring: recorded group samples and a float64 recomputation of the error as oracle; sensitivity tests with perturbed maps'
NOTE = ('Held on the executions explored: equivariant matrices and bases from float64 definitions, equivariant maps with a perturbation of known size, both orders of '
        'input and output, over generated groups and representations; the value is recomputed from the elements the diagnostic sampled (recorded by a stand-in for the group).')
import numpy as np
from .. import ref, gen, build
from ..core import Inconclusive

RULE = ("a case is a group, two representations and a few maps between them (equivariant, perturbed, bases, both orders); "
        "nontrivial if there are equivariant and other maps; distinct by group and representations")
ASSUMPTIONS = ["the scale of the relative error is the documented one, the larger of the scales of the two sides and of the group element minus the identity",
               "sensitivity is judged by the largest of several calls, for groups with more than one element"]
NEED = {'equivariant maps': 100, 'perturbed maps': 80, 'bases': 60, 'values recomputed': 300, 'distinct nontrivial': 40, 'library bases': 30}
QUICK_S = 30
GROUPS = [g for g in gen.LIB + gen.COMPLEX + gen.USER if g not in ("ZksZnxZn(4,3)", "ZksZnxZn(2,3)")]


def cases(tier, seed):
    rng = gen.case_rng('c17', seed)
    groups = list(GROUPS)
    while True:
        rng.shuffle(groups)
        for g in groups:
            rg = ref.group(g)
            m = rng.choice([4, 9, 16]) if tier == 'quick' else rng.choice([4, 9, 16, 27])
            yield dict(g=g, i=gen.rep(rng, [rg], m, depth=rng.randint(0, 2)), o=gen.rep(rng, [rg], m, depth=rng.randint(0, 2)),
                       s=rng.randrange(10 ** 6))


class Recorder:
    """stands for the group: records (or provides) the elements sampled"""

    def __init__(self, G, provide=None):
        self._G, self._provide, self.seen = G, provide, []

    def samples(self, N):
        import jax.numpy as jnp
        gs = self._G.samples(N) if self._provide is None else jnp.asarray(np.stack([self._provide() for _ in range(N)]))
        self.seen += [np.asarray(g) for g in gs]
        return gs

    def sample(self):
        return self.samples(1)[0]

    def __getattr__(self, name):
        return getattr(self._G, name)

    def __eq__(self, other):
        return self._G == (other._G if isinstance(other, Recorder) else other)

    def __hash__(self):
        return hash(self._G)


def expected(W, ein, eout, gs):
    """W: (r, out, in)"""
    t1 = np.stack([W @ ref.rho(ein, {0: g}) for g in gs])
    t2 = np.stack([ref.rho(eout, {0: g}) @ W for g in gs])
    rms = lambda a: np.sqrt(np.mean(np.abs(a) ** 2))
    scale = max(rms(t1) + rms(t2), rms(np.stack(gs) - np.eye(gs[0].shape[-1])), 1e-7)
    return rms(t1 - t2) / scale


def run(case, mon):
    import jax.numpy as jnp
    from emlp.reps import equivariance_error
    rg = ref.group(case['g'])
    G = build.group(rg)
    ein, eout = ref.tup(case['i']), ref.tup(case['o'])
    rng = np.random.RandomState(case['s'])
    nontrivial = 0
    for a, b in [(ein, eout), (eout, ein)]:
        ra, rb = build.rep(a, [G]), build.rep(b, [G])
        n, m = ra.size(), rb.size()
        name = f"{case['g']}: {ref.show(a)} -> {ref.show(b)}"
        N, gap, top = ref.invariants(('*', (b, ('D', a))), [rg])
        if gap is not None and gap < 1e-3 * max(top, 1):
            raise Inconclusive('ill-conditioned constraints')
        r = N.shape[1]
        cx = np.iscomplexobj(N) or rg.complex
        rand = lambda *s: rng.randn(*s) + (1j * rng.randn(*s) if cx else 0)

        def value(W, basis=False, provide=None, key='value'):
            """the diagnostic for W: (out*in, r) or (out, in), judged against the elements it sampled"""
            R = Recorder(G, provide)
            A = W.astype(np.complex64 if np.iscomplexobj(W) else np.float32)
            A = jnp.asarray(A) if rng.rand() < .6 else A
            e = equivariance_error(A, ra, rb, R)
            mon.check(np.shape(e) == (), 'scalar', f"{name}: the error has shape {np.shape(e)} for {W.shape}")
            e = float(e)
            gs = [np.asarray(g, complex if np.iscomplexobj(g) else float) for g in R.seen]
            c = max([np.linalg.cond(g) for g in gs] + [1.])
            if c < 30:
                x = expected(np.asarray(W).reshape(m, n, -1).transpose(2, 0, 1), a, b, gs) if gs else None
                if x is not None:
                    mon.count('values recomputed')
                    mon.err(abs(e - x) / (1e-4 + 1e-2 * x) / c, 1., key, f"{name}: the error is {e:.4g}, recomputed from the elements sampled {x:.4g}")
            return e, c

        def small(W, what):
            e, c = value(W)
            mon.err(e, 1e-4 * c ** 2, 'small', f"{name}: {what} is equivariant")
        if r:
            for _ in range(2):
                W = (N @ rand(r)).reshape(m, n)
                W = W / max(np.abs(W).max(), 1e-6) * rng.choice([.1, 1., 20.])
                mon.count('equivariant maps')
                small(W, 'a map')
            mon.count('bases')
            small(N, 'the basis')
            Q = (ra >> rb).equivariant_basis()
            Q = np.asarray(Q @ np.eye(Q.shape[-1], dtype=np.float32))
            mon.count('library bases')
            if Q.shape[1]:
                small(Q, "the library's basis")
            if r > 1:
                small(N[:, :2], 'part of the basis')
        small(np.zeros((m, n)), 'zero')
        one = not rg.algebra and all(np.allclose(h, np.eye(rg.d)) for h in rg.gens)
        if r == n * m or one:
            continue
        nontrivial += 1
        P = rand(n * m)
        P = P - N @ (N.conj().T @ P)
        P = P / np.linalg.norm(P)
        for t in (1., .4):
            W = (N @ rand(r) if r and t < 1 else np.zeros(n * m))
            W = np.sqrt(1 - t * t) * W / max(np.linalg.norm(W), 1e-9) + t * P
            W = W.reshape(m, n) / np.abs(W).max() * 3
            mon.count('perturbed maps')
            best = -1
            for k in range(8):
                best = max(best, value(W)[0])
                if best > .02 * t:
                    break
            mon.check(best > .004 * t, 'sensitive', f"{name}: the error is at most {best:.3g} in 8 calls for a map of which the part of relative size {t} is not equivariant")
        # one bad element in a basis shows
        if r:
            B = np.concatenate([N[:, :3], P[:, None], N[:, 3:5]], 1)
            mon.count('bases')
            best = max(value(B)[0] for _ in range(5))
            mon.check(best > 2e-3, 'sensitive', f"{name}: the error is at most {best:.3g} in 5 calls for a basis with an element which is not equivariant")
        # elements provided: only one of the sampled elements tells
        g = rg.sample(rng, 1.)
        if np.linalg.cond(g) < 20:
            left = [np.eye(rg.d)] * rng.randint(5) + [g] + [np.eye(rg.d)] * 5
            value(P.reshape(m, n) / np.abs(P).max(), provide=lambda: (left.pop(0) if left else np.eye(rg.d)).astype(np.complex64 if np.iscomplexobj(g) else np.float32), key='value')
    if nontrivial:
        mon.seen('nontrivial', (case['g'], ref.show(ein), ref.show(eout)))
