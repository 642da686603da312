"""C04: rho is a homomorphism, drho its derivative, the dual preserves the pairing - also for user defined reps."""
TECHNIQUE = 'runtime monitoring: algebraic invariants checked on observed group and Lie algebra matrices'
NOTE = 'Held on the executions explored: multiplication, identity, inverse, exponential, linearity, bracket and duality laws of the matrices the library returns (eager, vmapped, lazy) at sampled elements. Needs no model of the representations, only matrix arithmetic in float64.'
import numpy as np
from scipy.linalg import expm
from .. import ref, gen, build

RULE = ("a case is a group and a random expression, with user defined reps in a third of the cases; the laws are checked at "
        "sampled pairs of elements; nontrivial: dimension > 1 and the element acts non trivially; distinct by group and expression")
ASSUMPTIONS = ["products are compared to 1e-4 times the product of the norms (float32)"]
NEED = {'laws checked': 1500, 'distinct nontrivial': 60, 'user defined reps': 20}
FIXED = [("SO(2)", ('psi', 3, 0)), ("O13()", ('P', 0)), ("O13()", ('*', (('P', 0), ('V', 0)))), ("SL(2)", ('D', ('Q', 0))), ("SU(2)", ('Q', 0)),
         ("Prod(SO(2),S(3))", ('P2', 0)), ("GL(2)", ('D', ('P2', 0))), ("S(4)", ('*', (('P', 0), ('T', 2, 0, 0)))), ("Sp(1)", ('*', (('Q', 0), ('D', ('V', 0)))))]


def cases(tier, seed):
    for g, e in FIXED:
        yield dict(g=g, e=e, d=False, s=1)
    groups = list(gen.LIB + gen.COMPLEX + gen.USER + gen.SMALL)
    groups += [g for g in groups if not ref.group(g).orth]
    rng = gen.case_rng('c04', seed)
    while True:
        rng.shuffle(groups)
        for g in groups:
            G = ref.group(g)
            m = int(rng.choice([8, 30, 60, 90 if tier == 'quick' else 200]))
            e = gen.rep(rng, [G], m, depth=rng.randint(0, 3), user=rng.random() < .5)
            yield dict(g=g, e=e, d=rng.random() < .3, s=rng.randrange(10 ** 6))


def run(case, mon):
    import jax
    e = ref.tup(case['e'])
    G = ref.group(case['g'])
    L = build.group(G)
    rng = np.random.RandomState(case['s'])
    r = build.rep(e, [L], case['d'])
    laws(r, L, G, mon, rng, f"{ref.show(e)} over {case['g']}")
    if any(a[0] in ('P', 'P2', 'Q', 'psi') for a in gen.atoms(e)):
        mon.count('user defined reps')
    if r.size() > 1:
        mon.seen('nontrivial', (case['g'], ref.show(e)))


def laws(r, L, G, mon, rng, name):
    import jax
    n = r.size()
    c32 = lambda M: np.asarray(M, np.complex64 if G.complex else np.float32)
    rho = lambda M: build.dense(r.rho_dense(c32(M))) * np.ones((n, n))
    drho = lambda A: build.dense(r.drho_dense(c32(A))) * np.ones((n, n))
    I = np.eye(G.d)
    nrm = lambda M: max(1., np.linalg.norm(M, 2))

    def law(a, b, scale, key, what):
        mon.count('laws checked')
        mon.err(np.abs(a - b).max() / scale if a.size else 0., 2e-4, key, f"{what} for {name}")
    mon.check(r.rho_dense(c32(I)).shape == (n, n), 'size', f"{name}: rho has shape {r.rho_dense(c32(I)).shape}, size {n}")
    law(rho(I), np.eye(n), 1, 'identity', 'rho(1) = 1')
    gs = []
    for _ in range(2):
        g, h = G.sample(rng, rng.uniform(.2, .9)), G.sample(rng, rng.uniform(.2, .9))
        gs += [g, h]
        rg, rh, rgh = rho(g), rho(h), rho(g @ h)
        kg = nrm(rg) * nrm(rho(np.linalg.inv(g)))
        kh = nrm(rh) * nrm(rho(np.linalg.inv(h)))
        law(rg @ rh, rgh, kg * kh, 'product', 'rho(g)rho(h) = rho(gh)')
        law(rg @ rho(np.linalg.inv(g)), np.eye(n), kg, 'inverse', 'rho(g)rho(g^-1) = 1')
    rd = r.T
    u, v = rng.randn(n), rng.randn(n)
    g = gs[0]
    ru = build.dense(rd.rho_dense(c32(g))) @ u
    k = nrm(rho(g)) * nrm(rho(np.linalg.inv(g))) * np.linalg.norm(u) * np.linalg.norm(v)
    law(np.array([ru @ (rho(g) @ v)]), np.array([u @ v]), k, 'dual', '<rho*(g)u, rho(g)v> = <u,v>')
    law(build.dense(rd.rho_dense(c32(I))), np.eye(n), 1, 'dual', 'rho*(1) = 1')
    # batches, as the diagnostics and the augmentation use it
    V = np.asarray(jax.vmap(r.rho_dense)(np.stack([c32(x) for x in gs])))
    mon.check(V.shape == (len(gs), n, n) or V.shape == (n, n), 'vmap', f"vmap of rho for {name} has shape {V.shape}")
    for i, x in enumerate(gs):
        law((V[i] if V.ndim == 3 else V).astype(complex), rho(x), nrm(rho(x)) * nrm(rho(np.linalg.inv(x))), 'vmap', 'vmap(rho)(gs) = rho(g)')
    if G.algebra:
        A, B = G.tangent(rng), G.tangent(rng)
        dA, dB = drho(A), drho(B)
        s = max(1., np.abs(dA).max(), np.abs(dB).max())
        law(drho(A * .7 - B * 1.3), dA * .7 - dB * 1.3, s, 'linear', 'drho is linear')
        law(drho(A @ B - B @ A), dA @ dB - dB @ dA, s * s * 2, 'bracket', 'drho([A,B]) = [drho(A),drho(B)]')
        t = rng.uniform(.3, .8)
        E = expm(t * dA)
        law(rho(expm(t * A)), E, nrm(E) ** 2, 'exponential', 'rho(exp(tA)) = exp(t drho(A))')
        law(build.dense(rd.drho_dense(c32(A))), -dA.T, s, 'dual', 'drho* = -drho^T')
        for Al in list(L.lie_algebra)[:2]:
            law(build.dense(r.drho(Al)) * np.ones((n, n)), drho(build.dense(Al)), s, 'lazy', "drho of the group's own generator")
    else:
        z = drho(np.zeros((G.d, G.d)))
        law(z, 0 * z, 1, 'linear', 'drho(0) = 0')
    for h in list(L.discrete_generators)[:2]:
        H = build.dense(h)
        law(build.dense(r.rho(h)) * np.ones((n, n)), rho(H), nrm(rho(H)) * nrm(rho(np.linalg.inv(H))), 'lazy', "rho of the group's own generator")
