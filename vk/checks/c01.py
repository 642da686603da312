"""C01: everything in an equivariant basis, and everything the projector returns, is fixed by every group element."""
TECHNIQUE = 'runtime monitoring: reference-model oracle over generated workloads, online monitor on solver results'
NOTE = (
    'Held on the executions explored: sampled group elements (independent float64 definitions of the groups) applied to every basis and projector computed for generated representations and inside network construction. Trusts the reference definitions of groups and representations, and float32 tolerances.')
import numpy as np
from .. import ref, gen, build
from . import large
from ..core import Inconclusive

RULE = ("a case is a group of the library or of a user and a random representation expression written with the operators of "
        "the library (or a network built from random channel specifications); it is nontrivial if the representation has "
        "dimension > 1 and its basis is not empty; distinct by group and expression")
ASSUMPTIONS = ["float32 arithmetic: residuals are judged relative to the norm of the group element's matrix",
               "group elements are sampled independently in float64: exponentials of random algebra elements times words in the "
               "discrete generators"]
NEED = {'group elements applied': 500, 'distinct nontrivial': 40, 'projected vectors': 200}
TOL = 2e-4
FIXED = [("O13()", ('>>', ('T', 1, 0, 0), ('T', 2, 1, 0))), ("S(5)", ('>>', ('+', (('n', 10, ('T', 1, 0, 0)), ('n', 5, ('T', 2, 0, 0)))), ('+', (('n', 3, ('T', 0, 0, 0)), ('T', 2, 0, 0))))),
         ("O13()", ('>>', ('*', (('+', (('V', 0), ('n', 2, ('**', ('V', 0), 2)))),  ('D', ('+', (('D', ('V', 0)), ('V', 0)))))), ('V', 0))),
         ("Cube()", ('>>', ('V', 0), ('V', 0))), ("SO(3)", ('T', 4, 0, 0)), ("SL(3)", ('T', 3, 0, 0)), ("Sp(2)", ('T', 2, 0, 0)), ("RubiksCube()", ('V', 0))]


def cases(tier, seed):
    for g, e in FIXED:
        yield dict(k='rep', g=g, e=e, d=False)
    groups = list(gen.LIB + gen.COMPLEX + gen.USER + gen.SMALL)
    rng = gen.case_rng('c01', seed)
    i = 0
    while True:
        rng.shuffle(groups)
        for g in groups:
            i += 1
            if i % 11 == 3:
                yield dict(large.case(rng), k='wide')
                continue
            if i % 9 == 0:
                yield dict(k='net', s=rng.randrange(10 ** 6))
                continue
            G = ref.group(g)
            m = 220 if tier == 'quick' or rng.random() < .7 else 600
            m = int(rng.choice([12, 40, 100, m]))
            e = gen.big(rng, [G], 1600) if i % 15 == 4 else gen.rep(rng, [G], m, depth=rng.randint(0, 3), user=rng.random() < .15)
            yield dict(k='rep', g=g, e=e, d=rng.random() < .3)


def opnorm(R):
    n = len(R)
    if n > 300:
        return float(np.sqrt(np.abs(R).sum(0).max() * np.abs(R).sum(1).max()))
    return float(np.linalg.norm(R, 2))


def judge(rep, e, Gs, rg, mon, nel, key, rng, Q=None, P=None):
    """basis and projector of the library rep against the reference expression e"""
    n = ref.size(e, Gs if False else rg)
    Q = build.dense(rep.equivariant_basis()) if Q is None else Q
    mon.check(Q.shape[0] == n, key + ':size', f"the basis of {ref.show(e)} has {Q.shape[0]} rows, the rep {n}")
    Pop = rep.equivariant_projector() if P is None else P
    mon.check(tuple(Pop.shape) == (n, n), key + ':size', f"the projector of {ref.show(e)} has shape {Pop.shape}, the rep has size {n}")
    x = rng.randn(n, 3)
    y = np.asarray(Pop @ np.asarray(x, np.float32))
    y1 = np.asarray(Pop @ np.asarray(x[:, 0], np.float32))
    y = np.concatenate([y, y1[:, None]], 1)
    mon.count('projected vectors', 4)
    for _ in range(nel):
        g = ref.elems(rg, rng)
        R = ref.rho(e, g)
        s = max(1., opnorm(R))
        mon.count('group elements applied')
        mon.seen('elements', np.round(np.concatenate([v.ravel() for v in g.values()]), 6).tobytes())
        if Q.shape[1]:
            mon.err(np.linalg.norm(R @ Q - Q, axis=0).max() / s, TOL * max(1, np.linalg.norm(Q, axis=0).max()), key + ':basis',
                    f"{ref.show(e)} over {[G.name for G in rg]}: a basis vector is moved by a group element", g=[v.tolist() for v in g.values()])
        mon.err(np.linalg.norm(R @ y - y, axis=0).max() / s, TOL * np.linalg.norm(x, axis=0).max(), key + ':projector',
                f"{ref.show(e)} over {[G.name for G in rg]}: a projected vector is moved by a group element", g=[v.tolist() for v in g.values()])
    return Q


def run(case, mon):
    if case['k'] == 'net':
        return run_net(case, mon)
    if case['k'] == 'wide':
        return large.solutions(case, mon)
    e = ref.tup(case['e'])
    rg = [ref.group(case['g'])]
    Gs = [build.group(rg[0])]
    rng = np.random.RandomState(np.random.randint(2 ** 31))
    r = build.rep(e, Gs, case['d'])
    Q = judge(r, e, Gs, rg, mon, 6, 'rep', rng)
    if Q.shape[0] > 1 and Q.shape[1]:
        mon.seen('nontrivial', (case['g'], ref.show(e)))


# ------------------------------------------------ bases computed while networks are built (monitor on the solver)
NET_GROUPS = ["SO(3)", "O(3)", "SO(2)", "S(4)", "Z(4)", "O13()", "D(4)", "SL(2)", "Cube()", "Sp(1)", "O2eR3()", "SO13p()", "Scaling(2)", "S(3)", "Prod(SO(2),S(3))"]


def run_net(case, mon):
    from . import nets
    import emlp.reps as er
    from emlp.reps.representation import Rep
    rng = gen.case_rng(case['s'])
    g = rng.choice(NET_GROUPS)
    rg = ref.group(g)
    G = build.group(rg)
    seen = []

    def subclasses(c):
        out = [c]
        for s in c.__subclasses__():
            out += subclasses(s)
        return out
    patched = []
    for c in subclasses(Rep):
        for m in ('equivariant_basis', 'equivariant_projector'):
            if m in c.__dict__:
                f = c.__dict__[m]

                def wrapped(self, _f=f, _m=m):
                    out = _f(self)
                    seen.append((_m, self, out))
                    return out
                patched.append((c, m, f))
                setattr(c, m, wrapped)
    try:
        import emlp.nn as nn
        ein, eout, ch, L = nets.random_spec(rng, rg)
        nn.EMLP(build.rep(ein, [None]), build.rep(eout, [None]), G, ch=nets.build_ch(ch), num_layers=L)
    finally:
        for c, m, f in patched:
            setattr(c, m, f)
    nrng = np.random.RandomState(case['s'] % 2 ** 31)
    gs = [rg.sample(nrng) for _ in range(3)]
    for m, r, out in seen:
        n = r.size()
        if n > 2500:
            mon.count('network bases too large to check')
            continue
        mon.count('bases monitored while building networks')
        k = out.shape[-1]
        if not k:
            continue
        v = build.dense(out @ np.asarray(nrng.randn(k, 2), np.float32))
        for M in gs:
            R = r.rho(np.asarray(M, np.complex64 if np.iscomplexobj(M) else np.float32))
            w = build.dense(R @ np.asarray(v, np.float32))
            nrm = max(1., np.linalg.norm(w) / max(np.linalg.norm(v), 1e-9))
            mon.err(np.linalg.norm(w - v) / max(np.linalg.norm(v), 1.) / nrm, TOL * max(1, opnorm(M) ** 4), 'network:' + m,
                    f"{m} of a rep of size {n} computed while building a network for {g} is not invariant", rep=str(r)[:200])
            mon.count('group elements applied')
    mon.seen('nontrivial', ('net', case['s']))
