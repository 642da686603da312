"""C18: bilinear layers are equivariant, linear in their parameters and in the input, and use every parameter."""
TECHNIQUE = 'runtime monitoring: metamorphic oracles (equivariance, linearity, homogeneity, batching) and an independent block model of the weights, over generated representations and random states'
NOTE = ('Held on the executions explored: generated groups, sums of tensors (in any order, single tensors, products of groups, user defined representations), parameters drawn far from '
        'initialization, all batch shapes and random states of numpy; the block model covers sums of tensors.')
import numpy as np
from .. import ref, gen, build
from ..core import Inconclusive
from . import nets

RULE = ("a case is a group (or two), an input and an output representation and a random state; the weights and the layers are evaluated on random and structured parameters and inputs; "
        "nontrivial if the weights are not constantly zero; distinct by group and representations")
ASSUMPTIONS = ["float32 arithmetic, compared to 2e-4 of the largest weight times the condition number of the transformation",
               "whether a parameter is used is judged at a random input"]
NEED = {'weights': 120, 'parameters used': 1000, 'blocks judged': 300, 'group elements applied': 300, 'layers': 60, 'batch shapes compared': 300, 'distinct nontrivial': 50,
        'absent types judged': 60}
QUICK_S = 34
GROUPS = [g for g in gen.LIB + gen.USER if g not in ("ZksZnxZn(4,3)", "ZksZnxZn(2,3)")]
FIXED = [dict(k='tensor', g='SO(3)', i=('+', (('n', 5, ('V', 0)), ('T', 2, 0, 0), ('S',))), o=('+', (('T', 2, 0, 0), ('n', 2, ('V', 0)), ('n', 3, ('S',))))),
         dict(k='tensor', g='SL(2)', i=('+', (('T', 2, 1, 0), ('n', 3, ('T', 1, 1, 0)), ('T', 0, 1, 0))), o=('+', (('T', 1, 0, 0), ('T', 2, 0, 0), ('T', 1, 0, 0)))),
         dict(k='tensor', g='S(4)', i=('V', 0), o=('V', 0)), dict(k='tensor', g='S(3)', i=('n', 2, ('S',)), o=('V', 0)), dict(k='tensor', g='O(2)', i=('T', 2, 0, 0), o=('V', 0)),
         dict(k='tensor', g='GL(2)', i=('+', (('T', 1, 1, 0), ('T', 0, 1, 0), ('T', 1, 0, 0))), o=('+', (('T', 0, 1, 0), ('T', 1, 0, 0)))),
         dict(k='tensor', g='O13()', i=('+', (('n', 6, ('V', 0)), ('T', 2, 0, 0))), o=('+', (('n', 2, ('V', 0)), ('S',), ('T', 0, 1, 0))))]


def cases(tier, seed):
    rng = gen.case_rng('c18', seed)
    fixed = [dict(c, s=seed) for c in FIXED]
    groups = list(GROUPS)
    i = 0
    while True:
        rng.shuffle(groups)
        for g in groups:
            i += 1
            if fixed and i % 3 == 0:
                yield fixed.pop(0)
            rg = ref.group(g)
            s = rng.randrange(10 ** 6)
            big = 24 if tier == 'quick' else rng.choice([24, 60])
            if i % 10 == 4:   # as wide as in use
                yield dict(k='tensor', wide=True, g=g, i=tensors(rng, rg, rng.choice([60, 110, 200]), 40, 35), o=tensors(rng, rg, rng.choice([60, 110, 200]), 40, 35), s=s)
            if rng.random() < .75:
                yield dict(k='tensor', g=g, i=tensors(rng, rg, big, 4 if rng.random() < .7 else 8), o=tensors(rng, rg, big, 3), s=s)
            else:
                yield dict(k='any', g=g, i=gen.rep(rng, [rg], 16, depth=2, user=rng.random() < .3), o=gen.rep(rng, [rg], 16, depth=2, user=rng.random() < .3), s=s)
        a, b = rng.sample([x for x in GROUPS if ref.group(x).d <= 4], 2)
        yield dict(k='mixed', g=a, h=b, s=rng.randrange(10 ** 6))


def tensors(rng, rg, maxn, mult, least=0):
    """a sum of tensors in any order; types repeat, in separate terms too"""
    for _ in range(100):
        xs = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            t = rng.choice([0, 1, 1, 1, 2, 2, 3])
            p = rng.randint(0, t)
            n = rng.choice([1, 1, 2, mult])
            e = rng.choice([('T', p, t - p, 0)] * 3 + [('V', 0), ('S',)])
            xs.append(('n', n, e) if n > 1 else e)
        e = ('+', tuple(xs)) if len(xs) > 1 else xs[0]
        if least <= ref.size(e, [rg]) <= maxn:
            return e
    return ('n', max(1, least // rg.d), ('V', 0)) if least else ('V', 0)


def parts(e, G, at=0):
    """[(type, start)] of the components of a sum of tensors: the type is (covariant, contravariant) rank, added up where the library identifies them"""
    t = e[0]
    if t == 'n':
        out = []
        n = ref.size(e[2], [G])
        for k in range(e[1]):
            out += parts(e[2], G, at + k * n)
        return out
    if t == '+':
        out = []
        for x in e[1]:
            out += parts(x, G, at)
            at += ref.size(x, [G])
        return out
    p, q = {'V': (1, 0), 'S': (0, 0), 'T': e[1:3]}[t]
    return [((p + q, 0) if G.orth else (p, q), at)]


def run(case, mon):
    import jax
    import jax.numpy as jnp
    import emlp.nn as nn
    from emlp.reps.representation import bilinear_weights
    rgs = [ref.group(case['g'])] + ([ref.group(case['h'])] if case['k'] == 'mixed' else [])
    Gs = [build.group(r) for r in rgs]
    rng = np.random.RandomState(case['s'])
    if case['k'] == 'mixed':
        if Gs[0] == Gs[1] or str(Gs[0]) == str(Gs[1]):
            return
        prng = gen.case_rng('c18', case['s'])
        f = lambda: gen.rep(prng, rgs, 14, depth=2)
        ein, eout = f(), f()
    else:
        ein, eout = ref.tup(case['i']), ref.tup(case['o'])
    rin, rout = build.rep(ein, Gs), build.rep(eout, Gs)
    if isinstance(rin, int) or isinstance(rout, int):
        return
    n, m = ref.size(ein, rgs), ref.size(eout, rgs)
    wide = case.get('wide')
    if n * m > (40000 if wide else 2500):
        return
    if wide:
        mon.count('wide weights')
    name = f"{'*'.join([case['g']] + ([case['h']] if len(rgs) > 1 else []))}: {ref.show(ein)} -> {ref.show(eout)}"
    np.random.seed(rng.randint(2 ** 31))
    k, f = bilinear_weights(rout, rin)
    mon.check(int(k) == k and k >= 0, 'size', f"{name}: {k} parameters")
    k = int(k)
    W = lambda p, x: np.asarray(f(jnp.asarray(p, jnp.float32), jnp.asarray(x, jnp.float32)), float)
    mon.count('weights')
    p, q = rng.randn(k) * 2, rng.randn(k)
    x, y = rng.randn(2, n).astype(np.float32)
    w = W(p, x)
    mon.check(w.shape == (m, n), 'shape', f"{name}: weights have shape {w.shape}, expected {(m, n)}")
    sc = max(np.abs(w).max(initial=0), 1e-3)
    a, b = rng.randn(2) * 2
    law = lambda got, want, key, what, s=sc: mon.err(np.abs(got - want).max(initial=0) / max(s, np.abs(want).max(initial=0)), 2e-5, key, f"{name}: {what}")
    law(W(a * p + b * q, x), a * w + b * W(q, x), 'linear:parameters', 'the weights are not linear in the parameters', (abs(a) + abs(b)) * sc)
    law(W(p, a * x + b * y), a * w + b * W(p, y), 'linear:input', 'the weights are not linear in the input', (abs(a) + abs(b)) * sc)
    a, b = rng.choice([-1, 1], 2) * 10 ** rng.uniform(-4, 4, 2)
    law(W(a * p, b * x) / (a * b), w, 'linear:input', f'the weights are not linear: parameters times {a:.2g}, input times {b:.2g}')
    law(W(0 * p, x), 0 * w, 'linear:parameters', 'the weights at zero parameters')
    law(W(p, 0 * x), 0 * w, 'linear:input', 'the weights at zero input')
    law(W(p, x), w, 'deterministic', 'a second evaluation differs')
    # equivariance
    for j in range(3):
        g = ref.elems(rgs, rng, rng.uniform(.3, 1.2))
        A, B = ref.rho(ein, g), ref.rho(eout, g)
        if np.iscomplexobj(A):
            return
        c = np.linalg.cond(A) * np.linalg.cond(B)
        if c > 3e3:
            mon.count('transformations skipped (condition number)')
            continue
        mon.count('group elements applied')
        x = rng.randn(n).astype(np.float32) if j else (rng.randn(n) * (rng.rand(n) < .4)).astype(np.float32)
        w = W(p, x)
        got, want = W(p, A @ x), B @ w @ np.linalg.inv(A)
        s = max(np.abs(want).max(initial=0), np.abs(got).max(initial=0), np.abs(w).max(initial=0), 1e-2)
        mon.err(np.abs(got - want).max(initial=0) / s, 2e-5 * min(c, 100), 'equivariance', f"{name}: the weights do not transform as maps", g=[v.tolist() for v in g.values()])
    # every parameter counts, at a random input
    x = np.asarray(rng.randn(n) + np.sign(rng.randn(n)), np.float32)
    ids = range(k) if k <= 60 else sorted(rng.choice(k, 8 if wide else 60, replace=False))
    full = W(p, x)
    J = None if wide else np.asarray(jax.jacfwd(lambda p: f(p, jnp.asarray(x)))(jnp.asarray(p, jnp.float32)), float) if k else np.zeros((m, n, 0))
    mon.check(J is None or np.isfinite(J).all(), 'parameters', f"{name}: gradient with respect to the parameters is not finite")
    if not wide: law(J @ p, full, 'linear:parameters', 'the derivative with respect to the parameters is not that of a linear function', max(np.abs(full).max(initial=0), 1e-3) * 2)
    for i in ids:
        mon.count('parameters used')
        mon.check(np.abs(W(np.eye(1, k, i)[0], x) if wide else J[..., i]).max(initial=0) > 1e-3, 'ignored', f"{name}: parameter {i} of {k} is ignored")
    if k:
        mon.seen('nontrivial', name)
    # batches
    X = rng.randn(4, n).astype(np.float32)
    rows = np.stack([W(p, v) for v in X])
    sb = max(np.abs(rows).max(initial=0), 1e-3)
    for shape, order in [((4,), [0, 1, 2, 3]), ((2, 2), [0, 1, 2, 3]), ((1, 4, 1), [3, 1, 2, 0]), ((1,), [2]), ((0,), [])]:
        mon.count('batch shapes compared')
        got = W(p, X[order].reshape(shape + (n,)))
        mon.check(got.shape == shape + (m, n), 'batch', f"{name}: a batch of shape {shape} gives {got.shape}")
        law(got, rows[order].reshape(shape + (m, n)), 'batch', f"a batch of shape {shape} gives other weights", sb)
    v = np.asarray(jax.vmap(lambda z: f(jnp.asarray(p, jnp.float32), z))(jnp.asarray(X)), float)
    law(v, rows, 'batch', 'vmap gives other weights', sb)
    if case['k'] == 'tensor':
        blocks(rgs[0], ein, eout, n, m, W, J, p, k, rng, mon, name)
    layers(nn, rin, rout, ein, eout, rgs, n, m, rng, mon, name)


def blocks(G, ein, eout, n, m, W, J, p, k, rng, mon, name):
    """an independent model: the block from one component to another is a combination of components of the input of its type"""
    pin, pout = parts(ein, G), parts(eout, G)
    d = G.d
    comps = {}
    for t, s in pin:
        comps.setdefault(t, []).append(s)
    x = rng.randn(n).astype(np.float32)
    w = W(p, x)
    sc = max(np.abs(w).max(initial=0), 1e-2)
    total = 0
    for (tb, sb) in pout:
        for (ta, sa) in pin:
            nb, na = d ** sum(tb), d ** sum(ta)
            t = (tb[0] + ta[0], 0) if G.orth else (tb[0] + ta[1], tb[1] + ta[0])
            blk = w[sb:sb + nb, sa:sa + na]
            if sum(t) == 0 or t not in comps:
                mon.count('absent types judged')
                mon.check(np.abs(blk).max(initial=0) <= 1e-6 * sc, 'absent', f"{name}: the block of type T{t} is not zero although the input has " + ('no such component' if sum(t) else 'nothing but scalars for it'))
                Jb = 0 if J is None else J[sb:sb + nb, sa:sa + na]
                mon.check(np.max(np.abs(Jb), initial=0) <= 1e-6, 'absent', f"{name}: the block of type T{t} has parameters")
                continue
            total += min(len(comps[t]), d ** sum(t))
            mon.count('blocks judged')
            # axes (out cov, out contra, in dual: contra from cov, cov from contra) -> all cov first
            T = blk.reshape((d,) * (sum(tb) + sum(ta)))
            if not G.orth:
                o = sum(tb)
                first = list(range(tb[0])) + list(range(o + ta[0], o + sum(ta)))
                rest = list(range(tb[0], o)) + list(range(o, o + ta[0]))
                T = T.transpose(first + rest)
            T = T.reshape(-1)
            X = np.stack([x[s:s + d ** sum(t)] for s in comps[t]], 1).astype(float)
            if G.orth and sum(t) > 1 or not G.orth and sum(t) > 1:
                mon.count('higher blocks judged')
            sol, *_ = np.linalg.lstsq(X, T, rcond=None)
            mon.err(np.abs(X @ sol - T).max() / sc, 1e-4, 'span', f"{name}: the block of type T{t} is no combination of the components of this type")
            mon.check(np.abs(T).max() > 0, 'span', f"{name}: the block of type T{t} is zero")
    mon.check(total == k, 'count', f"{name}: {k} parameters, {total} expected")


def layers(nn, rin, rout, ein, eout, rgs, n, m, rng, mon, name):
    import jax.numpy as jnp
    layer = nn.BiLinear(rin, rout)
    mon.count('layers')
    vs = layer.vars()
    arrays = [np.asarray(v.value) for v in vs]
    assign = lambda xs: vs.assign([jnp.asarray(a, jnp.float32) for a in xs])
    f = lambda x: np.asarray(layer(jnp.asarray(x, jnp.float32)), float)
    P, Q = [rng.randn(*a.shape) for a in arrays], [rng.randn(*a.shape) for a in arrays]
    X = rng.randn(3, n).astype(np.float32)
    assign(P)
    y = f(X)
    mon.check(y.shape == (3, m), 'layer:shape', f"{name}: the layer maps {X.shape} to {y.shape}")
    sc = max(np.abs(y).max(initial=0), 1e-2)
    mon.err(np.abs(f(-2 * X) - 4 * y).max(initial=0) / sc, 1e-4, 'layer:quadratic', f"{name}: the layer is not quadratic in the input")
    mon.err(np.abs(np.stack([f(v) for v in X]) - y).max(initial=0) / sc, 1e-4, 'layer:batch', f"{name}: single vectors give other results")
    mon.err(np.abs(f(X.reshape(3, 1, n))[:, 0] - y).max(initial=0) / sc, 1e-4, 'layer:batch', f"{name}: another batch shape gives other results")
    mon.check(f(X[:0]).shape == (0, m), 'layer:batch', f"{name}: an empty batch gives another shape")
    g = ref.elems(rgs, rng, .8)
    A, B = ref.rho(ein, g), ref.rho(eout, g)
    c = np.linalg.cond(A)
    if c * np.linalg.cond(B) < 1e3:
        mon.count('group elements applied')
        got = f(X @ A.T)
        mon.err(np.abs(got - y @ B.T).max(initial=0) / max(sc, np.abs(got).max(initial=0)), 1e-4 * c, 'layer:equivariance', f"{name}: the layer is not equivariant")
    assign(Q)
    z = f(X)
    assign([2 * a - 3 * b for a, b in zip(P, Q)])
    mon.err(np.abs(f(X) - (2 * y - 3 * z)).max(initial=0) / (3 * max(sc, np.abs(z).max(initial=0))), 1e-4, 'layer:linear', f"{name}: the layer is not linear in its parameters")
