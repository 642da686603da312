"""C10: the objax networks and each of their layers are equivariant for all parameters, inputs and batch shapes; the linear
layer has exactly the equivariant affine maps as its range."""
TECHNIQUE = 'runtime monitoring: metamorphic (equivariance) oracle and float64 range oracle over generated networks, parameters, batches and transformations'
NOTE = ('Held on the executions explored: generated groups, representations, channel specifications and depths, with parameters drawn far from '
        'initialization; group elements come from independent float64 definitions. Trusts those definitions and float32 tolerances scaled by a measured sensitivity.')
import numpy as np
from .. import ref, gen, build
from ..core import Inconclusive
from . import nets

RULE = ("a case is a linear layer, a layer (bilinear, gate, block) or a whole network, for a group, input and output representations "
        "and a channel specification; nontrivial if the map it computes is not constant; distinct by specification")
ASSUMPTIONS = ["float32 arithmetic; residuals are relative to the output and to the measured sensitivity of the function to its input",
               "group elements are sampled independently in float64"]
NEED = {'networks': 9, 'linear layers': 10, 'blocks': 6, 'group elements applied': 300, 'ranges compared': 10, 'distinct nontrivial': 20,
        'batch shapes compared': 60, 'gates': 6, 'bilinear layers': 6}
QUICK_S = 42
TOL = 2e-4
GROUPS = [g for g in gen.LIB if g not in ("ZksZnxZn(4,3)", "ZksZnxZn(2,3)")]
FIXED = [dict(k='net', g='SO(3)', i=('n', 3, ('V', 0)), o=('V', 0), ch=['rep', ('V', 0)], L=2),
         dict(k='net', g='S(4)', i=('+', (('n', 2, ('V', 0)), ('T', 0, 0, 0))), o=('T', 2, 0, 0), ch=30, L=2),
         dict(k='net', g='O13()', i=('n', 2, ('V', 0)), o=('+', (('T', 0, 0, 0), ('T', 0, 1, 0))), ch=40, L=1),
         dict(k='net', g='Cube()', i=('V', 0), o=('V', 0), ch={'list': [['rep', ('+', (('T', 2, 0, 0), ('n', 2, ('T', 0, 0, 0)), ('V', 0)))], 24]}, L=3),
         dict(k='net', g='SL(2)', i=('+', (('T', 0, 2, 0), ('n', 3, ('T', 1, 0, 0)))), o=('+', (('T', 0, 1, 0), ('T', 0, 0, 0))), ch=40, L=2),
         dict(k='net', g='O(2)', i=('+', (('T', 2, 0, 0), ('T', 0, 0, 0))), o=('T', 2, 0, 0), ch=['rep', ('+', (('T', 2, 0, 0), ('n', 2, ('T', 0, 0, 0)), ('n', 3, ('V', 0))))], L=2),
         dict(k='lin', g='SO13p()', i=('+', (('T', 0, 1, 0), ('T', 2, 0, 0))), o=('+', (('V', 0), ('T', 1, 1, 0)))),
         dict(k='lin', g='Scaling(2)', i=('T', 1, 1, 0), o=('+', (('T', 1, 1, 0), ('T', 0, 0, 0))))]


def cases(tier, seed):
    rng = gen.case_rng('c10', seed)
    fixed = [dict(c, s=seed) for c in FIXED]
    wide = rng.choice([g for g in ("SO(3)", "O(2)", "S(4)", "Z(4)", "SO13p()", "O(3)", "D(4)", "SL(2)")])   # as wide as in use
    yield dict(k='net', g=wide, i=('n', 2, ('V', 0)), o=('V', 0), ch=rng.randint(190, 390), L=1, s=seed)
    groups = list(GROUPS)
    i = 0
    while True:
        rng.shuffle(groups)
        for g in groups:
            i += 1
            if fixed and i % 3 == 0:
                yield fixed.pop(0)
            rg = ref.group(g)
            s = rng.randrange(10 ** 6)
            k = rng.choice(['net', 'net', 'lin', 'lin', 'layers'])
            if k == 'lin':
                m = rng.choice([6, 14, 30]) if tier == 'quick' else rng.choice([6, 14, 30, 40])
                yield dict(k=k, g=g, i=gen.rep(rng, [rg], m, depth=rng.randint(0, 2)), o=gen.rep(rng, [rg], m, depth=rng.randint(0, 2)), s=s)
            elif k == 'layers':
                yield dict(k=k, g=g, i=nets.io_rep(rng, rg, 24), o=nets.io_rep(rng, rg, 30), s=s)
            else:
                big = tier == 'thorough' and rng.random() < .3
                ein, eout, ch, L = nets.random_spec(rng, rg, 20 if not big else 60, (6, 12, 20, 33) if not big else (64, 128, 200))
                yield dict(k=k, g=g, i=ein, o=eout, ch=ch, L=min(L, 2) if tier == 'quick' else L, s=s)


def set_params(model, rng, mode):
    import jax.numpy as jnp
    vc = model.vars()
    ts = []
    for k, v in vc.items():
        a = np.asarray(v.value)
        if mode == 'init':
            n = a
        elif mode == 'sparse':
            n = rng.randn(*a.shape) * (rng.rand(*a.shape) < .25) * 2
        elif mode == 'onehot':
            n = a.astype(float)
            if a.size:
                n = np.array(n)
                n.reshape(-1)[rng.randint(a.size)] += 3.
        elif mode == 'const':
            n = np.full(a.shape, rng.randn() / np.sqrt(max(a.shape[-1], 1)))
        else:
            n = rng.randn(*a.shape) * {'normal': 1., 'small': .1, 'large': 3.}[mode] / (1 if a.ndim < 2 else np.sqrt(a.shape[-1]))
        ts.append(jnp.asarray(np.asarray(n, np.float32)))
    vc.assign(ts)


MODES = ['init', 'normal', 'sparse', 'onehot', 'const', 'small', 'large']


def equivariant(f, rin, rout, nin, rng, gs, mon, key, name, tol=TOL, scale=1., rows=3):
    """f(rin(g) x) = rout(g) f(x) for rows of x"""
    x = (rng.randn(rows, nin) * scale).astype(np.float32)
    y = np.asarray(f(x), float)
    if scale > 30 and not np.isfinite(y).all() and np.abs(np.nan_to_num(y, nan=1e38)).max() > 1e30:
        mon.count('overflows')
        return x, y
    mon.check(np.isfinite(y).all(), key, f"{name}: the output is not finite")
    d = (rng.randn(rows, nin)).astype(np.float32)
    eps = 1e-2 * max(np.abs(x).max(), 1e-2) / max(np.abs(d).max(), 1e-2)
    S = np.abs(np.asarray(f((x + eps * d).astype(np.float32)), float) - y).max() / (eps * np.abs(d).max()) if nin else 0.
    mon.seen('input scales', int(np.floor(np.log10(scale))))
    for g in gs:
        A, B = rin(g), rout(g)
        gx = (x @ A.T).astype(np.float32)
        got = np.asarray(f(gx), float)
        if scale > 3:   # what rounding alone does to steep gates
            jit = [np.abs(np.asarray(f((p * (1 + 1e-6 * rng.uniform(-1, 1, p.shape))).astype(np.float32)), float) - v).max(initial=0)
                   for p, v in ((x, y), (gx, got))]
            slack = 3e4 * max(jit[0] * max(1., np.abs(B).sum(1).max(initial=0)), jit[1])
            if not np.isfinite(got).all():   # overflow is not at issue
                mon.count('overflows')
                continue
        else:
            slack = 0.
        want = y @ B.T
        nb = max(1., np.abs(B).sum(1).max() if B.size else 1.)
        sc = max(np.abs(want).max(initial=0), np.abs(got).max(initial=0), nb * np.abs(y).max(initial=0),
                 S * np.abs(x).max(initial=0) * max(1, np.abs(A).sum(1).max(initial=0)), slack, 1e-2)
        mon.count('group elements applied')
        mon.err(np.abs(got - want).max(initial=0) / sc, tol, key, f"{name}: f(rho(g)x) differs from rho(g)f(x)", g=[v.tolist() for v in g.values()])
    return x, y


def batches(f, nin, nout, x, y, rng, mon, key, name, jit=True):
    """all batch shapes, jit and vmap give the same rows"""
    import jax
    import jax.numpy as jnp
    sc = max(np.abs(y).max(initial=0), 1e-2)
    same = lambda got, want, what: (mon.count('batch shapes compared'), mon.check(tuple(np.shape(got)) == tuple(np.shape(want)), key + ':batch', f"{name}: {what} gives shape {np.shape(got)}, {np.shape(want)} expected"),
                                    mon.err(np.abs(np.asarray(got, float) - want).max(initial=0) / sc, 2e-4, key + ':batch', f"{name}: {what} gives another result"))
    r = rng.randint(4)
    same(f(jnp.asarray(x[0])), y[0], 'a single vector')
    same(f(jnp.asarray(x[1:2])), y[1:2], 'a batch of one')
    same(f(jnp.asarray(x)[::-1]), y[::-1], 'a permuted batch')
    if r == 0: same(f(jnp.asarray(x).reshape(1, len(x), nin)), y[None], 'a batch of shape (1,n)')
    if r == 1: same(f(jnp.asarray(np.stack([x, x[::-1]]))), np.stack([y, y[::-1]]), 'a batch of shape (2,n)')
    if r == 2: same(f(jnp.asarray(np.stack([x, x[::-1]])).reshape(2, 1, len(x), nin)), np.stack([y, y[::-1]])[:, None], 'a batch of shape (2,1,n)')
    if r == 3: same(f(jnp.asarray(x[:0])), y[:0], 'an empty batch')
    if rng.randint(3) == 0:
        idx = rng.randint(len(x), size=[17, 33, 65, 130, 257, 300][rng.randint(6)])
        same(f(jnp.asarray(x[idx])), y[idx], f'a batch of {len(idx)}')
    if rng.randint(4) == 0 and key != 'gate':   # sigmoids do not take integers
        xi = np.round(2 * x).astype(np.int32)
        same(f(jnp.asarray(xi)), np.asarray(f(jnp.asarray(xi.astype(np.float32))), float), 'integer input')
        same(f(x), y, 'an array of numpy')
    other = x.copy()
    other[1:] = rng.randn(*other[1:].shape) * 5
    same(np.asarray(f(jnp.asarray(other)))[0], y[0], 'a batch with other rows changed')
    if jit:
        same(jax.vmap(f)(jnp.asarray(x)), y, 'vmap')
        same(jax.jit(f)(jnp.asarray(x)), y, 'jit')


def run(case, mon):
    import jax.numpy as jnp
    import emlp.nn as nn
    rg = ref.group(case['g'])
    G = build.group(rg)
    ein, eout = ref.tup(case['i']), ref.tup(case['o'])
    nin, nout = ref.size(ein, [rg]), ref.size(eout, [rg])
    rng = np.random.RandomState(np.random.randint(2 ** 31))
    gs = [ref.elems([rg], rng) for _ in range(4)]
    rin, rout = (lambda g: ref.rho(ein, g)), (lambda g: ref.rho(eout, g))
    name = f"{case['g']}: {ref.show(ein)} -> {ref.show(eout)}"
    if case['k'] == 'lin':
        return linear(nn, build.rep(ein, [G]), build.rep(eout, [G]), ein, eout, rg, rng, gs, mon, name)
    if case['k'] == 'layers':
        return layers(case, nn, build.rep(ein, [G]), build.rep(eout, [G]), ein, eout, rg, rng, gs, mon, name)
    name += f", ch={case['ch']}, {case['L']} layers"
    net = nn.EMLP(build.rep(ein, [None]), build.rep(eout, [None]), G, ch=nets.build_ch(case['ch']), num_layers=case['L'])
    mon.count('networks')
    mon.seen('groups', case['g'])
    for j, mode in enumerate([MODES[case['s'] % 7], MODES[(case['s'] // 7) % 7], 'normal']):
        set_params(net, rng, mode)
        x, y = equivariant(net, rin, rout, nin, rng, gs, mon, 'network', f"network {name}, {mode} parameters", scale=rng.choice([.3, 1., 2.]) if j < 2 else 10 ** rng.uniform(-2, 2.5))
        mon.count('parameter vectors')
        if j == 0:
            batches(net, nin, nout, x, y, rng, mon, 'network', name)
            same = np.asarray(net(jnp.asarray(x), training=False))
            mon.err(np.abs(same - y).max(initial=0), 1e-5 * max(1, np.abs(y).max(initial=0)), 'network:batch', f"{name}: the training flag changes the function")
        if j == 1:   # under jit with the parameters as arguments, as in training
            import objax
            jf = objax.Jit(lambda x: net(x, training=True), net.vars())
            mon.err(np.abs(np.asarray(jf(jnp.asarray(x))) - y).max(initial=0), 2e-4 * max(1e-2, np.abs(y).max(initial=0)), 'network:jit', f"{name}: objax.Jit changes the function")
        if y.size and np.ptp(y, axis=0).max() > 1e-4:
            mon.seen('nontrivial', (case['g'], name))


def affine(layer, nin, nout, mon, name):
    import jax.numpy as jnp
    y = np.asarray(layer(jnp.asarray(np.concatenate([np.zeros((1, nin)), np.eye(nin)]).astype(np.float32))), float)
    mon.check(y.shape == (nin + 1, nout), 'linear:shape', f"{name}: output shape {y.shape}")
    return (y[1:] - y[0]).T, y[0]


def linear(nn, repin, repout, ein, eout, rg, rng, gs, mon, name):
    import jax.numpy as jnp
    nin, nout = repin.size(), repout.size()
    mon.check((nin, nout) == (ref.size(ein, [rg]), ref.size(eout, [rg])), 'linear:shape', f"{name}: sizes {nin}, {nout}")
    layer = nn.Linear(repin, repout)
    mon.count('linear layers')
    NW, gW, sW = ref.invariants(('*', (eout, ('D', ein))), [rg])
    Nb, gb, sb = ref.invariants(eout, [rg])
    if (gW or 1) < 1e-3 * sW or (gb or 1) < 1e-3 * sb:
        raise Inconclusive('ill-conditioned constraints')
    r, rb = NW.shape[1], Nb.shape[1]
    if np.iscomplexobj(NW):
        raise Inconclusive('complex')
    samples = []
    ns = 2 * (r + rb) + 3 if r + rb <= 40 else 4
    for k in range(ns):
        set_params(layer, rng, 'normal' if k else MODES[rng.randint(7)])
        W, b = affine(layer, nin, nout, mon, name)
        if k < 3:
            sc = max(np.abs(W).max(initial=0), np.abs(b).max(initial=0), 1e-2)
            w = W.reshape(-1)
            mon.err(np.abs(w - NW @ (NW.T @ w)).max(initial=0) / sc, 1e-4, 'linear:range', f"{name}: the matrix of the layer is not equivariant")
            mon.err(np.abs(b - Nb @ (Nb.T @ b)).max(initial=0) / sc, 1e-4, 'linear:range', f"{name}: the bias of the layer is not invariant")
            x, y = equivariant(layer, lambda g: ref.rho(ein, g), lambda g: ref.rho(eout, g), nin, rng, gs[:2], mon, 'linear', name)
            mon.err(np.abs(y - (x @ W.T + b)).max(initial=0) / (sc * max(1, np.abs(x).sum(1).max())), 1e-4, 'linear:affine', f"{name}: the layer is not affine")
            if k == 0:
                batches(layer, nin, nout, x, y, rng, mon, 'linear', name)
        samples.append(np.concatenate([NW.T @ W.reshape(-1), Nb.T @ b]))
    if r + rb:
        mon.seen('nontrivial', name)
    if r + rb <= 40:
        mon.count('ranges compared')
        if r + rb:
            s = np.linalg.svd(np.array(samples[1:]) / np.sqrt(ns), compute_uv=False)
            mon.check(s[-1] > 1e-3 * max(s[0], 1e-3), 'linear:complete',
                      f"{name}: the layer reaches only {(s > 1e-3 * s[0]).sum()} of {r}+{rb} dimensions of equivariant affine maps")


def layers(case, nn, repin, repout, ein, eout, rg, rng, gs, mon, name):
    import jax.numpy as jnp
    grep = nn.gated(repout)
    n, m = repout.size(), grep.size()
    mon.check(m >= n, 'gated', f"{name}: gated rep is smaller than the rep")
    egate = ('+', (eout, ('n', m - n, ('S',)))) if m > n else eout
    gin, gout = (lambda g: ref.rho(egate, g)), (lambda g: ref.rho(eout, g))
    act = nn.GatedNonlinearity(repout)
    mon.count('gates')
    x, y = equivariant(act, gin, gout, m, rng, gs, mon, 'gate', f"gate of {case['g']}: {ref.show(eout)}", tol=1e-4)
    batches(act, m, n, x, y, rng, mon, 'gate', f"gate of {ref.show(eout)}")
    equivariant(act, gin, gout, m, rng, gs, mon, 'gate', f"gate of {case['g']}: {ref.show(eout)}", tol=1e-4, scale=10 ** rng.uniform(1, 4))
    equivariant(act, gin, gout, m, rng, gs[:2], mon, 'gate', f"gate of {case['g']}: {ref.show(eout)}", tol=1e-4, scale=10 ** rng.uniform(-2, 4))
    if ref.size(ein, [rg]) * n <= 600:
        bi = nn.BiLinear(repin, repout)
        mon.count('bilinear layers')
        set_params(bi, rng, MODES[rng.randint(7)])
        x, y = equivariant(bi, lambda g: ref.rho(ein, g), gout, repin.size(), rng, gs, mon, 'bilinear', f"bilinear layer {name}", tol=5e-4)
        batches(bi, repin.size(), n, x, y, rng, mon, 'bilinear', f"bilinear layer {name}")
        equivariant(bi, lambda g: ref.rho(ein, g), gout, repin.size(), rng, gs[:2], mon, 'bilinear', f"bilinear layer {name}", tol=5e-4, scale=10 ** rng.uniform(-2, 3))
    blk = nn.EMLPBlock(repin, repout)
    mon.count('blocks')
    for j in range(2):
        set_params(blk, rng, MODES[rng.randint(7)])
        x, y = equivariant(blk, lambda g: ref.rho(ein, g), gout, repin.size(), rng, gs, mon, 'block', f"block {name}")
        if j == 0:
            batches(blk, repin.size(), n, x, y, rng, mon, 'block', f"block {name}")
            equivariant(blk, lambda g: ref.rho(ein, g), gout, repin.size(), rng, gs[:2], mon, 'block', f"block {name}", scale=10 ** rng.uniform(-2, 3))
    if np.ptp(y, axis=0).max() > 1e-4:
        mon.seen('nontrivial', name)
