"""C09: representations of several groups: bases, projectors and matrices for all the groups at once."""
TECHNIQUE = 'runtime monitoring: reference-model oracle over generated mixed-group programs, in worker processes with different hash seeds'
NOTE = ('Held on the executions explored: bases (rank, span, orthonormality, order), projectors, group and Lie algebra matrices of generated expressions over two or three different groups compared with a float64 '
        'reference of the direct product, in eight hash seeds, concretely written or partly deferred, and inside linear layers. User defined reps are not mixed (outside the supported interface).')
import numpy as np
from .. import ref, gen, build
from ..core import Inconclusive
from . import c01, c02, c03, large

RULE = ("a case is two or three different groups and a random expression using all of them; its matrices, basis and projector are compared with the "
        "reference semantics of the direct product; nontrivial: at least two groups occur and 0 < rank < size or rank is larger than one; distinct by groups and expression")
ASSUMPTIONS = c02.ASSUMPTIONS
NEED = {'mixed bases': 40, 'distinct nontrivial': 25, 'three groups': 4, 'linear layers': 4, 'matrices compared': 100, 'distinct orders': 2}
QUICK_S = 42
GROUPS = ["SO(2)", "SO(3)", "O(2)", "O(3)", "S(2)", "S(3)", "S(4)", "S(5)", "Z(2)", "Z(3)", "Z(4)", "Z(5)", "C(4)", "C(2)", "D(3)", "D(4)", "SL(2)", "Sp(1)", "SO11p()", "O11()", "O13()", "SO13p()", "Scaling(2)",
          "Trivial(1)", "Trivial(2)", "GL(1)", "GL(2)", "Cube()", "Embed(S(2),3,1,3)", "O2eR3()", "SO(1)", "O(1)", "SL(3)", "U(2)", "SU(2)", "U(1)", "Alt(4)", "Alt(4,True)", "Signed(3)", "Heis()", "Conj(SO(3),1)", "Q8()", "Scaling(1)", "C(3)"]
A, B, C = ('V', 0), ('V', 1), ('V', 2)
FIXED = [(["S(5)", "SO(3)"], ('*', (A, B, A, B))), (["SO(3)", "S(5)"], ('+', (('*', (A, B)), ('n', 2, ('*', (B, A))), ('S',), A))), (["SO(3)", "S(3)"], ('>>', ('*', (A, B)), ('*', (B, ('**', A, 2))))),
         (["SL(2)", "S(3)"], ('>>', ('+', (A, B)), ('*', (A, B)))), (["S(3)", "SO(2)", "Z(2)"], ('*', (('+', (A, B)), ('+', (C, A))))), (["SO(3)", "O(2)", "S(2)"], ('**', ('+', (A, B, C)), 2)),
         (["O13()", "S(2)"], ('D', ('*', (('T', 1, 1, 0), B)))), (["U(2)", "S(3)"], ('*', (('T', 1, 1, 0), B))), (["Z(3)", "GL(2)"], ('*', (B, A, ('D', B), A))), (["SL(2)", "Sp(1)"], ('*', (A, B, ('D', A), ('D', B))))]


def cases(tier, seed):
    rng = gen.case_rng('c09', seed)
    for g, e in FIXED:
        yield dict(k='rep', g=g, e=e, s=rng.randrange(10 ** 9))
    i = 0
    while True:
        i += 1
        if i % 10 == 4:
            yield dict(large.case(rng, mixed=True), k='wide')
            continue
        ng = 3 if i % 4 == 0 else 2
        gs = rng.sample(GROUPS, ng)
        if i % 3 == 0:   # groups with larger fixed spaces
            gs[0] = rng.choice(["S(3)", "S(4)", "Z(3)", "SO(2)", "SO(3)", "O(2)", "S(2)"])
            if len(set(gs)) < ng:
                continue
        Gs = [ref.group(g) for g in gs]
        m = rng.choice([12, 40, 100, 100, 180 if tier == 'quick' else 500])
        for _ in range(60):
            e = gen.nested(rng, Gs, m) if rng.random() < .35 else gen.rep(rng, Gs, m, depth=rng.randint(1, 4))
            if len(gen.groups_used(e)) == ng:
                break
        else:
            continue
        yield dict(k='linear' if i % 6 == 5 and ref.size(e, Gs) <= 40 else 'rep', g=gs, e=e, s=rng.randrange(10 ** 9))


def build_mixed(e, Gs, rng):
    """the rep, with some one-group parts written without the group and instantiated later"""
    from emlp.reps import V, T, Scalar

    def go(e):
        used = gen.groups_used(e)
        if len(used) == 1 and e[0] != 'int' and rng.random() < .4:
            k, = used
            return build._rep(e, [None] * len(Gs))(Gs[k])
        t = e[0]
        if t == 'D': return go(e[1]).T
        if t == '+':
            xs = [go(x) for x in e[1]]
            if all(isinstance(x, int) for x in xs):
                xs[0] = xs[0] * Scalar
            if rng.random() < .3:
                return sum(xs)
            out = xs[0]
            for x in xs[1:]:
                out = out + x
            return out
        if t == 'n': return e[1] * go(e[2]) if rng.random() < .7 else go(e[2]) * e[1]
        if t == '*':
            xs = [go(x) for x in e[1]]
            out = xs[0]
            for x in xs[1:]:
                out = out * x
            return out
        if t == '**': return go(e[1]) ** e[2]
        if t == '>>': return go(e[1]) >> go(e[2])
        if t == '<<': return go(e[1]) << go(e[2])
        return build._rep(e, Gs)
    return go(e)


def run(case, mon):
    if case['k'] == 'wide':
        large.solutions(case, mon)
        large.complete(case, mon)
        return large.matrices(case, mon)
    e = ref.tup(case['e'])
    rg = [ref.group(g) for g in case['g']]
    Gs = [build.group(r) for r in rg]
    prng = gen.case_rng(case['s'])
    rng = np.random.RandomState(case['s'] % 2 ** 31)
    where = ", ".join(case['g'])
    mon.seen('orders', tuple(np.argsort([hash(G) for G in Gs])))
    mon.count('orders observed', 1)
    if case['k'] == 'linear':
        return linear(case, e, rg, Gs, prng, rng, mon, where)
    r = build_mixed(e, Gs, prng)
    c03.compare(r, e, rg, Gs, mon, 'mixed', rng, nel=2, where=where)
    # each generator of each group alone (identity on the others), and the lazy generators themselves
    one = {k: np.eye(G.d) for k, G in enumerate(rg)}
    zero = {k: np.zeros((G.d, G.d)) for k, G in enumerate(rg)}
    n = ref.size(e, rg)
    for k, G in enumerate(Gs):
        for h in list(G.discrete_generators)[:1]:
            H = build.dense(h)
            mon.close(build.dense(r.rho_dense(build.elem({**one, k: H}, Gs, rg))) * np.ones((n, n)), ref.rho(e, {**one, k: H}), 2e-4 * c03.cond({0: H}) ** 2, 'mixed:rho', f"{ref.show(e)} over {where} of a generator of {case['g'][k]}")
        for a in list(G.lie_algebra)[:1]:
            a = build.dense(a)
            mon.close(build.dense(r.drho_dense(build.elem({**zero, k: a}, Gs, rg))) * np.ones((n, n)), ref.drho(e, {**zero, k: a}), 2e-4, 'mixed:drho', f"{ref.show(e)} over {where} of a generator of {case['g'][k]}")
    rank, n = c02.judge(r, e, rg, mon, 'mixed', rng, where)
    c01.judge(r, e, Gs, rg, mon, 3, 'mixed', rng)
    mon.count('mixed bases')
    if len(rg) == 3:
        mon.count('three groups')
    mon.count('largest rank', 0)
    if 0 < rank and n > 1 and (rank < n or rank > 1):
        mon.seen('nontrivial', (where, ref.show(e)))
    # the dual, and the same rep again after everything else was computed
    if prng.random() < .4:
        de = ('D', e)
        c03.compare(r.T, de, rg, Gs, mon, 'mixed dual', rng, nel=1, where=where)
        c02.judge(r.T, de, rg, mon, 'mixed dual', rng, where)
    if prng.random() < .4:
        r2 = build_mixed(e, Gs, prng)
        g = ref.elems(rg, rng, size=.8)
        mon.close(build.dense(r2.rho_dense(build.elem(g, Gs, rg))) * np.ones((n, n)), ref.rho(e, g), 2e-5 * (2 + c03.degree(e)) * c03.cond(g) ** 2, 'mixed:again', f"{ref.show(e)} over {where} built again")
        c02.judge(r2, e, rg, mon, 'mixed again', rng, where)


def linear(case, e, rg, Gs, prng, rng, mon, where):
    """linear layers between mixed reps"""
    import emlp.nn as nn
    import jax.numpy as jnp
    import objax
    if any(G.complex for G in rg):
        raise Inconclusive('complex')
    for _ in range(60):
        f = gen.rep(prng, rg, 20, depth=2)
        if gen.groups_used(f):
            break
    if ref.size(f, rg) * ref.size(e, rg) > 900:
        raise Inconclusive('too large')
    rin, rout = build_mixed(e, Gs, prng), build_mixed(f, Gs, prng)
    if isinstance(rin, int) or isinstance(rout, int):
        raise Inconclusive('no rep')
    L = nn.Linear(rin, rout)
    for v in (L.w, L.b):
        objax.TrainRef(v).value = jnp.asarray(rng.randn(*v.value.shape), jnp.float32)
    n, m = ref.size(e, rg), ref.size(f, rg)
    x = rng.randn(5, n)
    y = np.asarray(L(jnp.asarray(x, jnp.float32))).astype(float)
    mon.check(y.shape == (5, m), 'mixed layer:shape', f"a linear layer {ref.show(e)} -> {ref.show(f)} over {where} gives shape {y.shape}")
    mon.count('linear layers')
    for _ in range(4):
        g = ref.elems(rg, rng, size=.8)
        Ri, Ro = ref.rho(e, g), ref.rho(f, g)
        yg = np.asarray(L(jnp.asarray(x @ Ri.T, jnp.float32)))
        s = max(1., c01.opnorm(Ri) * c01.opnorm(Ro), c01.opnorm(Ro)) * max(1., np.abs(y).max(), np.abs(yg).max())
        mon.count('matrices compared')
        mon.err(np.abs(yg - y @ Ro.T).max() / s, 5e-4, 'mixed layer:equivariance', f"a linear layer {ref.show(e)} -> {ref.show(f)} over {where} is not equivariant")
    # its maps are all equivariant maps
    N = ref.invariants(('>>', e, f), rg)[0]
    W = np.asarray(L(jnp.eye(n)) - L(jnp.zeros((1, n))))
    v = W.T.reshape(-1).astype(float)
    mon.err(np.abs(v - N @ (N.conj().T @ v)).max(), 5e-4 * max(1, np.abs(v).max()), 'mixed layer:range', f"the matrix of a linear layer {ref.show(e)} -> {ref.show(f)} over {where} is not an equivariant map")
    want = N @ (N.conj().T @ np.asarray(L.w.value, float).reshape(-1))
    mon.err(np.abs(v - want).max(), 5e-4 * max(1, np.abs(want).max()), 'mixed layer:complete', f"the matrix of a linear layer {ref.show(e)} -> {ref.show(f)} over {where} is not the projection of its parameters")
    mon.seen('nontrivial', ('linear', where, ref.show(e), ref.show(f)))
