"""C14: networks stay equivariant while they are trained, standardized, augmented and used as vector fields or Hamiltonians."""
TECHNIQUE = 'runtime monitoring: metamorphic (equivariance) and model-based oracles over real training runs and wrapped networks'
NOTE = ('Held on the executions explored: generated networks are trained for some steps by several optimizers on random data in all four backends and their equivariance judged along the way by independent group '
        'elements; wrappers are run around recording models whose inputs reveal the transformation applied. Trusts float32 tolerances scaled by a measured sensitivity.')
import numpy as np
from .. import ref, gen, build
from ..core import Inconclusive
from . import nets, c10, c11

RULE = 'a case is a training run, a wrapped model or an ODE/Hamiltonian network; nontrivial if the function is not constant (and, for training runs, the parameters changed); distinct by specification'
ASSUMPTIONS = ["float32 arithmetic; residuals are relative to the output and to the measured sensitivity of the function to its input",
               "training runs whose parameters overflow say nothing"]
NEED = {'training runs': 8, 'optimizer steps': 25, 'trained states judged': 12, 'standardized models': 14, 'augmented batches': 18, 'transformations recovered': 40, 'vector fields': 3, 'Hamiltonians': 3,
        'dynamics judged': 20, 'group elements applied': 150, 'distinct nontrivial': 18}
PRELOAD = ['torch', 'flax', 'haiku']
QUICK_S = 42
GROUPS = [g for g in c10.GROUPS if ref.group(g).d <= 6]
# rho (x) symplectic: q in a representation, p in its dual
HAM = ["SO(3)", "O(2)", "SL(2)", "SL(3)", "SO13p()", "O13()", "S(4)", "Z(4)", "D(4)", "Cube()", "Scaling(2)", "GL(2)", "O2eR3()", "SO2eR3()", "DkeR3(6)", "Sp(1)", "Sp(2)", "O11()"]
DATASETS = ['Inertia', 'O5Synthetic', 'ParticleInteraction', 'InvertedCube']


def cases(tier, seed):
    rng = gen.case_rng('c14', seed)
    kinds = ['train', 'std', 'aug', 'ode', 'train', 'ham', 'stdds', 'aug', 'train', 'std', 'augds', 'ham']
    backends = ['objax', 'torch', 'flax', 'haiku']
    groups = list(GROUPS)
    rng.shuffle(groups)
    i = j = 0
    while True:
        i += 1
        k = kinds[(i + i // 8) % len(kinds)]
        s = rng.randrange(10 ** 6)
        g = groups[i % len(groups)] if k not in ('ham',) else rng.choice(HAM)
        rg = ref.group(g)
        big = tier == 'thorough' and rng.random() < .3
        if k == 'train':
            j += 1
            ein, eout, ch, L = nets.random_spec(rng, rg, 16 if not big else 40, (6, 12, 20) if not big else (32, 64, 100))
            yield dict(k=k, g=g, i=ein, o=eout, ch=ch, L=min(L, 2), b=backends[j % 4], opt=rng.choice(['sgd', 'momentum', 'adam']), steps=rng.choice([1, 4, 9]) * (1 if tier == 'quick' else 3), s=s)
        elif k == 'ode':
            e = nets.io_rep(rng, rg, 12)
            yield dict(k=k, g=g, e=e, ch=rng.choice([6, 12, 20]), L=rng.choice([1, 2]), s=s)
        elif k == 'ham':
            q = nets.io_rep(rng, rg, 6) if rg.d < 4 else ('V', 0)
            kind = 'V' if g.startswith('Sp(') and rng.random() < .6 else 'q+q*'
            yield dict(k=k, g=g, q=q, kind=kind, ch=rng.choice([6, 12, 20]), L=rng.choice([1, 2]), s=s)
        elif k in ('stdds', 'augds'):
            yield dict(k=k, d=rng.choice(DATASETS + (['BrokenRubiksCube'] if k == 'stdds' and tier == 'thorough' else [])), b=rng.choice(['objax', 'torch']), n=rng.choice([7, 64, 200]), s=s)
        elif k == 'std':
            yield dict(k=k, b=rng.choice(['objax', 'torch']), n=rng.choice([2, 4]), scalar=rng.random() < .4, s=s)
        else:
            yield dict(k=k, g=g, i=nets.io_rep(rng, rg, 12), o=nets.io_rep(rng, rg, 12), s=s)


def run(case, mon):
    rng = np.random.RandomState(np.random.randint(2 ** 31))
    globals()['do_' + case['k']](case, rng, mon)


# ------------------------------------------------------------------------------------------- training

def make(case, nn, G):
    return nn.EMLP(build.rep(ref.tup(case['i']), [None]), build.rep(ref.tup(case['o']), [None]), G, ch=nets.build_ch(case['ch']), num_layers=case['L'])


def steps_objax(m, opt, lr, data):
    import jax.numpy as jnp
    import objax
    vc = m.vars()
    o = dict(sgd=objax.optimizer.SGD, momentum=objax.optimizer.Momentum, adam=objax.optimizer.Adam)[opt](vc)
    gv = objax.GradValues(lambda x, y: jnp.mean((m(x, training=True) - y) ** 2), vc)
    step = objax.Jit(lambda x, y: o(lr, gv(x, y)[0]), vc + o.vars())
    for x, y in data:
        step(jnp.asarray(x), jnp.asarray(y))
        yield


def steps_jax(b, opt, lr, data):
    import jax
    import jax.numpy as jnp
    import optax
    tx = dict(sgd=optax.sgd(lr), momentum=optax.sgd(lr, momentum=.9), adam=optax.adam(lr))[opt]
    st = tx.init(b.p)
    gr = jax.jit(jax.grad(lambda p, x, y: jnp.mean((b.apply(p, x) - y) ** 2)))
    for x, y in data:
        u, st = tx.update(gr(b.p, x, y), st, b.p)
        b.p = optax.apply_updates(b.p, u)
        yield


def steps_torch(m, opt, lr, data):
    import torch
    o = dict(sgd=lambda p: torch.optim.SGD(p, lr), momentum=lambda p: torch.optim.SGD(p, lr, momentum=.9), adam=lambda p: torch.optim.Adam(p, lr))[opt](m.parameters())
    for x, y in data:
        o.zero_grad()
        ((m(torch.tensor(x)) - torch.tensor(y)) ** 2).mean().backward()
        o.step()
        yield


def do_train(case, rng, mon):
    rg = ref.group(case['g'])
    G = build.group(rg)
    ein, eout = ref.tup(case['i']), ref.tup(case['o'])
    nin, nout = ref.size(ein, [rg]), ref.size(eout, [rg])
    name = f"{case['b']} {case['g']}: {ref.show(ein)} -> {ref.show(eout)}, ch={case['ch']}, {case['L']} layers, {case['opt']}"
    mk = lambda nn: make(case, nn, G)
    b = {'objax': lambda: c11.Objax(mk), 'torch': lambda: c11.Torch(mk), 'flax': lambda: c11.Flax(mk, nin), 'haiku': lambda: c11.Haiku(mk, nin)}[case['b']]()
    mon.count('training runs')
    mon.seen('backends', case['b'])
    P0 = [a for _, a in b.get()]
    y0 = np.abs(b(rng.randn(4, nin).astype(np.float32))).max(initial=0)
    xs = 10 ** rng.uniform(-.5, .7)
    data = [((rng.randn(rng.randint(2, 6) if case['b'] == 'torch' else 4, nin) * xs).astype(np.float32),) for _ in range(case['steps'])]
    data = [(x, (rng.randn(len(x), nout) * 2).astype(np.float32)) for x, in data]
    lr = {'sgd': .03, 'momentum': .01, 'adam': .03}[case['opt']]
    it = {'objax': lambda: steps_objax(b.m, case['opt'], lr, data), 'torch': lambda: steps_torch(b.m, case['opt'], lr, data)}.get(case['b'], lambda: steps_jax(b, case['opt'], lr, data))()
    rin, rout = (lambda g: ref.rho(ein, g)), (lambda g: ref.rho(eout, g))
    n = 0
    for _ in it:
        n += 1
        mon.count('optimizer steps')
        if n not in (1, case['steps']):
            continue
        P = [a for _, a in b.get()]
        if not all(np.isfinite(a).all() for a in P) or max([np.abs(a).max(initial=0) for a in P] + [0]) > 1e4:
            raise Inconclusive('training diverged')
        mon.count('trained states judged')
        x, y = c10.equivariant(b, rin, rout, nin, rng, [ref.elems([rg], rng) for _ in range(3)], mon, 'trained', f"{name} after {n} steps", scale=xs)
    moved = max([np.abs(a - p).max(initial=0) for a, p in zip(P, P0)] + [0])
    mon.check(moved > 0 or y0 < 1e-3, 'training:frozen', f"{name}: no parameter changed in {n} steps")
    if moved and np.ptp(y, axis=0).max() > 1e-4:
        mon.seen('nontrivial', name)


# ------------------------------------------------------------------------------------------- standardization

class Rec:
    """a model that records its calls and computes a function which is not equivariant"""

    def __init__(self, nin, nout, rng, torch=False):
        self.W = (rng.randn(nin, nout) / np.sqrt(nin)).astype(np.float32)
        self.V = (rng.randn(nin, nout) / np.sqrt(nin)).astype(np.float32)
        self.calls = []
        self.torch = torch

    def f(self, x):
        x = np.asarray(x, float)
        return np.sin(x @ self.W) + x @ self.V + .3

    def make(self):
        rec = self
        if self.torch:
            import torch

            class M(torch.nn.Module):
                def forward(self, x, training=True):
                    rec.calls.append((x.detach().numpy().copy(), training))
                    return torch.sin(x @ torch.tensor(rec.W)) + x @ torch.tensor(rec.V) + .3
            return M()
        import jax.numpy as jnp
        from objax import Module

        class M(Module):
            def __call__(self, x, training=True):
                rec.calls.append((np.asarray(x), training))
                return jnp.sin(x @ rec.W) + x @ rec.V + .3
        return M()


def wrapper(b):
    if b == 'torch':
        import emlp.nn.pytorch as nn
    else:
        import emlp.nn as nn
    return nn.Standardize


def io(b):
    if b == 'torch':
        import torch
        return (lambda a: torch.tensor(np.asarray(a, np.float32))), (lambda a: a.detach().numpy())
    import jax.numpy as jnp
    return (lambda a: jnp.asarray(np.asarray(a, np.float32))), np.asarray


def standardized(S, rec, stats, nin, nout, rng, mon, key, name, b):
    to, back = io(b)
    st = [np.asarray(a, float) for a in stats]
    mx, sx = st[:2]
    my, sy = st[2:] if len(st) == 4 else (0., 1.)
    for shape in [(4,), (2, 3), (), (1,), (0,)]:
        for training in (True, False):
            x = (rng.randn(*shape, nin) * 2).astype(np.float32)
            x0 = x.copy()
            rec.calls.clear()
            y = back(S(to(x), training))
            mon.count('standardized batches')
            mon.check(len(rec.calls) == 1 and rec.calls[0][1] == training, key + ':flag', f"{name}: the model is called {[c[1] for c in rec.calls]} for training={training}")
            want_in = (x.astype(float) - mx) / sx
            mon.close(rec.calls[0][0], want_in, 1e-5, key + ':input', f"{name}: the model's input is not (x-mu)/sigma")
            want = rec.f(want_in) * sy + my
            mon.close(y, want, 3e-5 * (1 + np.abs(want_in).max(initial=0)), key + ':output', f"{name}: the output is not sigma*y+mu")
            mon.check((x == x0).all(), key + ':input', f"{name}: modifies its input")


def do_std(case, rng, mon):
    nin, nout = rng.randint(1, 6), rng.randint(1, 6)
    rec = Rec(nin, nout, rng, case['b'] == 'torch')
    sh = (lambda n: ()) if case['scalar'] else (lambda n: (n,))
    stats = [rng.randn(*sh(nin)), np.exp(rng.randn(*sh(nin))), rng.randn(*sh(nout)), np.exp(rng.randn(*sh(nout)))][:case['n']]
    to, _ = io(case['b'])
    if case['n'] == 2 and rng.rand() < .5 and case['scalar']:
        stats = [0, 1]
    pass_ = [s if np.isscalar(s) or s is stats and False else (float(s) if np.ndim(s) == 0 else to(s)) for s in stats]
    if rng.rand() < .3:
        pass_ = list(pass_)
    else:
        pass_ = tuple(pass_)
    S = wrapper(case['b'])(rec.make(), pass_)
    mon.count('standardized models')
    standardized(S, rec, stats, nin, nout, rng, mon, 'standardize', f"{case['b']} Standardize with {case['n']} statistics", case['b'])


def dataset(name, n):
    import emlp.datasets as ds
    cls = getattr(ds, name)
    return cls() if 'Cube' in name else cls(n)


def ds_ref(name):
    """(group, rep_in, rep_out) as documented"""
    V, S = ('V', 0), ('S',)
    return {'Inertia': ('O(3)', ('+', (('n', 5, S), ('n', 5, V))), ('T', 2, 0, 0)), 'O5Synthetic': ('O(5)', ('n', 2, V), S), 'ParticleInteraction': ('Lorentz()', ('n', 4, V), S),
            'InvertedCube': ('Cube()', ('n', 6, V), ('n', 2, S)), 'BrokenRubiksCube': ('RubiksCube()', ('n', 6, V), ('n', 2, S))}[name]


def do_stdds(case, rng, mon):
    ds = dataset(case['d'], case['n'])
    g, ein, eout = ds_ref(case['d'])
    rg = ref.group(g)
    name = f"{case['b']} network standardized with the statistics of {case['d']}({case['n']})"
    to, back = io(case['b'])
    if case['b'] == 'torch':
        import emlp.nn.pytorch as nn
    else:
        import emlp.nn as nn
    nin = ref.size(ein, [rg])
    rec = Rec(nin, ref.size(eout, [rg]), rng, case['b'] == 'torch')
    stats = tuple(s if np.ndim(s) == 0 else to(s) for s in ds.stats)
    standardized(nn.Standardize(rec.make(), stats), rec, ds.stats, nin, ref.size(eout, [rg]), rng, mon, 'standardize', f"{case['b']} Standardize with the statistics of {case['d']}", case['b'])
    mon.count('standardized models')
    if case['d'] == 'BrokenRubiksCube':
        net = nn.EMLP(ds.rep_in, ds.rep_out, ds.symmetry, ch=build.rep(('n', 3, ('V', 0)), [None]), num_layers=1)
    else:
        net = nn.EMLP(ds.rep_in, ds.rep_out, ds.symmetry, ch=int(rng.choice([12, 30])), num_layers=1)
    S = nn.Standardize(net, stats)
    mon.count('standardized models')
    tr = bool(rng.rand() < .5)
    f = lambda x: back(S(to(x), training=tr))
    X = np.asarray(ds.X, float)
    x, y = c10.equivariant(f, lambda h: ref.rho(ein, h), lambda h: ref.rho(eout, h), nin, rng, [ref.elems([rg], rng) for _ in range(5)], mon, 'standardized', name, scale=max(np.abs(X).mean(), .1))
    if case['b'] == 'objax' and case['d'] != 'BrokenRubiksCube':   # and after training on the dataset itself
        import jax.numpy as jnp
        import objax
        vc = S.vars()
        o = objax.optimizer.Adam(vc)
        Y = np.asarray(ds.Y, float).reshape(len(X), -1)
        gv = objax.GradValues(lambda x, y: jnp.mean((S(x, training=True) - y) ** 2), vc)
        step = objax.Jit(lambda x, y: o(3e-3, gv(x, y)[0]), vc + o.vars())
        for _ in range(3):
            idx = rng.randint(len(X), size=5)
            step(to(X[idx]), to(Y[idx]))
            mon.count('optimizer steps')
        mon.count('training runs')
        mon.count('trained states judged')
        x, y = c10.equivariant(f, lambda h: ref.rho(ein, h), lambda h: ref.rho(eout, h), nin, rng, [ref.elems([rg], rng) for _ in range(3)], mon, 'trained', name + ' and trained on it', scale=max(np.abs(X).mean(), .1))
    if np.ptp(y, axis=0).max() > 1e-4:
        mon.seen('nontrivial', (name, case['s']))


# ------------------------------------------------------------------------------------------- augmentation

def do_aug(case, rng, mon):
    from emlp.datasets import GroupAugmentation
    rg = ref.group(case['g'])
    if ref.size(case['i'], [rg]) + rg.d ** 2 > 60:
        raise Inconclusive('too large')
    G = build.group(rg)
    # enough vectors in the input reveal the transformation; they are hidden among other components
    ein = ('+', (ref.tup(case['i']), ('n', rg.d, ('V', 0))))
    eout = ref.tup(case['o'])
    ni, nout = ref.size(ref.tup(case['i']), [rg]), ref.size(eout, [rg])
    nin = ref.size(ein, [rg])
    rec = Rec(nin, nout, rng)
    deferred = [None]
    aug = GroupAugmentation(rec.make(), build.rep(ein, deferred), build.rep(eout, deferred), G)
    judge_aug(aug, rec, ein, eout, slice(ni, None), rg, rng, mon, f"augmentation for {case['g']}: {ref.show(ein)} -> {ref.show(eout)}")


def judge_aug(aug, rec, ein, eout, vecs, rg, rng, mon, name, X=None):
    import jax.numpy as jnp
    nin = ref.size(ein, [rg])
    seen, per = [], []
    for n in (4, 4, 1, 5):
        per.append({})
        x = (rng.randn(n, nin) if X is None else X[rng.randint(len(X), size=n)]).astype(np.float32)
        rec.calls.clear()
        mon.count('augmented batches')
        y = np.asarray(aug(jnp.asarray(x), training=True) if rng.rand() < .7 else aug(jnp.asarray(x)), float)
        mon.check(len(rec.calls) == 1 and rec.calls[0][1] is True, 'aug:flag', f"{name}: the model is called with training={[c[1] for c in rec.calls]}")
        xin = np.asarray(rec.calls[0][0], float)
        mon.check(xin.shape == x.shape, 'aug:shape', f"{name}: model input of shape {xin.shape}")
        mon.check(y.shape == (n, rec.W.shape[1]), 'aug:shape', f"{name}: output of shape {y.shape}")
        fx = rec.f(xin)
        for i in range(n):
            A, B = x[i, vecs].astype(float).reshape(-1, rg.d), xin[i, vecs].reshape(-1, rg.d)
            s = np.linalg.svd(A, compute_uv=False)
            if s[-1] < .05 * s[0]:
                continue
            g = np.linalg.lstsq(A, B, rcond=None)[0].T
            c = np.linalg.cond(g)
            if not c < 300:
                continue
            tol = 3e-4 * max(1, np.abs(g).max()) * s[0] / s[-1]
            mon.err(np.abs(A @ g.T - B).max() / max(1, np.abs(B).max()), tol, 'aug:input', f"{name}: the vectors of one row are not transformed by one matrix")
            if rg.member is not None:
                mon.err(rg.member(g) / max(1, np.abs(g).max() ** 2), 10 * tol, 'aug:element', f"{name}: the input is transformed by something outside of the group", g=g.tolist())
            Rin, Rout = ref.rho(ein, {0: g}), ref.rho(eout, {0: g})
            mon.err(np.abs(xin[i] - Rin @ x[i]).max(initial=0) / max(1, np.abs(xin[i]).max(initial=0), np.abs(Rin).max() * np.abs(x[i]).max()), 10 * tol * max(1, np.abs(g).max()) ** 2, 'aug:input',
                    f"{name}: the components of one row are not transformed by the same group element")
            k = np.linalg.cond(Rout) if Rout.size else 1.
            if k < 1e4:
                want = np.linalg.solve(Rout, fx[i])
                mon.err(np.abs(y[i] - want).max(initial=0) / max(1, np.abs(want).max(initial=0)), max(10 * tol, 1e-4) * max(1, k), 'aug:output',
                        f"{name}: the output of a row is not transformed back by the element which transformed its input")
                mon.count('transformations recovered')
            seen.append(g)
            per[-1][i] = g
        x1 = x.copy()
        rec.calls.clear()
        y = np.asarray(aug(jnp.asarray(x), training=False), float)
        mon.check(len(rec.calls) == 1 and rec.calls[0][1] is False, 'aug:flag', f"{name}: in evaluation the model is called with training={[c[1] for c in rec.calls]}")
        mon.close(rec.calls[0][0], x1, 1e-7, 'aug:eval', f"{name}: evaluation changes the input")
        mon.close(y, rec.f(x1), 3e-5 * (1 + np.abs(x1).max()), 'aug:eval', f"{name}: evaluation mode is not the bare model")
    if len(seen) > 1 and max(np.abs(g - np.eye(rg.d)).max() for g in seen) > 1e-3:
        mon.seen('nontrivial', name)
        mon.count('augmentations which move')
    if len(seen) >= 6 and (rg.algebra or len(rg.gens)) and (rg.order or 100) > 3:
        mon.check(max(np.abs(g - seen[0]).max() for g in seen) > 1e-4, 'aug:element', f"{name}: every row of three batches is transformed by the same element")
    both = set(per[0]) & set(per[1])
    if len(both) >= 3 and rg.algebra:
        mon.count('batches of equal size compared')
        mon.check(max(np.abs(per[0][i] - per[1][i]).max() for i in both) > 1e-4, 'aug:element', f"{name}: two batches are transformed by the same elements")


def do_augds(case, rng, mon):
    name = case['d'] if case['d'] != 'InvertedCube' else 'ParticleInteraction'   # (cube datasets have no augmentation)
    ds = dataset(name, max(case['n'], 20))
    g, ein, eout = ds_ref(name)
    rg = ref.group(g)
    rec = Rec(ref.size(ein, [rg]), ref.size(eout, [rg]), rng)
    aug = ds.default_aug(rec.make())
    nscal = {'Inertia': 5}.get(name, 0)
    if name == 'O5Synthetic':   # two vectors do not determine the transformation; their Gram matrix is preserved
        import jax.numpy as jnp
        x = np.asarray(ds.X[:6], np.float32)
        for _ in range(3):
            rec.calls.clear()
            y = np.asarray(aug(jnp.asarray(x), training=True), float)
            xin = np.asarray(rec.calls[0][0], float)
            gram = lambda v: np.einsum('bnd,bmd->bnm', v.reshape(-1, 2, 5), v.reshape(-1, 2, 5))
            mon.close(gram(xin), gram(x.astype(float)), 1e-4, 'aug:input', 'augmentation of O5Synthetic changes scalar products')
            mon.close(y, rec.f(xin), 1e-4, 'aug:output', 'augmentation of O5Synthetic changes the scalar output')
            mon.check(np.abs(xin - x).max() > 1e-3, 'aug:element', 'augmentation of O5Synthetic does nothing')
            mon.count('augmented batches')
        return
    judge_aug(aug, rec, ein, eout, slice(nscal, None), rg, rng, mon, f"default augmentation of {name}", X=np.asarray(ds.X))


# ------------------------------------------------------------------------------------------- ODE and Hamiltonian networks

def do_ode(case, rng, mon):
    import jax
    import jax.numpy as jnp
    import emlp.nn as nn
    rg = ref.group(case['g'])
    G = build.group(rg)
    e = ref.tup(case['e'])
    n = ref.size(e, [rg])
    net = nn.EMLPode(build.rep(e, [None]), build.rep(e, [None]), G, ch=case['ch'] if rg.d > 1 else nets.build_ch(['rep', ('n', 3, ('V', 0))]), num_layers=case['L'])
    name = f"EMLPode {case['g']}: {ref.show(e)}, ch={case['ch']}, {case['L']} layers"
    mon.count('vector fields')
    for mode in ('init', 'normal', c10.MODES[rng.randint(7)]):
        c10.set_params(net, rng, mode)
        t = float(rng.randn())
        f = lambda z: net(jnp.asarray(z), t)
        x, y = c10.equivariant(f, lambda g: ref.rho(e, g), lambda g: ref.rho(e, g), n, rng, [ref.elems([rg], rng) for _ in range(4)], mon, 'ode', f"{name}, {mode} parameters")
        mon.check(y.shape == x.shape, 'ode:shape', f"{name}: a vector field with values of shape {y.shape}")
        # as in batched integration: one state at a time
        v = np.asarray(jax.jit(jax.vmap(lambda z, t: net(z, t), (0, None)))(jnp.asarray(x), t), float)
        mon.err(np.abs(v - y).max(initial=0) / max(np.abs(y).max(initial=0), 1e-2), 2e-4, 'ode:batch', f"{name}: the vector field differs for single states")
        for s in (0., -1.3 * abs(t) - .1, 40 * abs(t)):   # autonomous: it has no argument for the time
            mon.err(np.abs(np.asarray(net(jnp.asarray(x), s), float) - y).max(initial=0) / max(np.abs(y).max(initial=0), 1e-2), 2e-4, 'ode:time', f"{name}: the vector field depends on the time ({s:.2g})")
    # the flow of the field is equivariant too (explicit Runge-Kutta steps)
    h = .1 / max(1, np.abs(y).max(initial=0))
    def flow(z):
        z = jnp.asarray(z)
        for _ in range(3):
            k1 = net(z, 0.); k2 = net(z + h / 2 * k1, 0.)
            z = z + h * k2
        return z
    c10.equivariant(flow, lambda g: ref.rho(e, g), lambda g: ref.rho(e, g), n, rng, [ref.elems([rg], rng) for _ in range(2)], mon, 'ode:flow', name + ', flow')
    if np.ptp(y, axis=0).max() > 1e-4:
        mon.seen('nontrivial', name)


def do_ham(case, rng, mon):
    import jax
    import jax.numpy as jnp
    import emlp.nn as nn
    rg = ref.group(case['g'])
    G = build.group(rg)
    q = ref.tup(case['q'])
    e = ('V', 0) if case['kind'] == 'V' else ('+', (q, ('D', q)))
    n = ref.size(e, [rg])
    out = build.rep(('S',), [None]) if rng.rand() < .7 else build.rep(('n', 2, ('S',)), [None])
    net = nn.EMLPH(build.rep(e, [None]), out, G, ch=case['ch'] if rg.d > 1 else nets.build_ch(['rep', ('n', 3, ('V', 0))]), num_layers=case['L'])
    name = f"EMLPH {case['g']}: {ref.show(e)}, ch={case['ch']}, {case['L']} layers"
    mon.count('Hamiltonians')
    gs = [ref.elems([rg], rng) for _ in range(4)]
    R = lambda g: ref.rho(e, g)
    J = np.block([[np.zeros((n // 2, n // 2)), np.eye(n // 2)], [-np.eye(n // 2), np.zeros((n // 2, n // 2))]])
    for g in gs:   # (the reference actions are symplectic)
        assert np.abs(R(g).T @ J @ R(g) - J).max() < 1e-6 * max(1, np.abs(R(g)).max() ** 2)
    for mode in ('normal', c10.MODES[rng.randint(7)]):
        c10.set_params(net, rng, mode)
        m = f"{name}, {mode} parameters"
        f = lambda x: np.asarray([net(jnp.asarray(r)) for r in np.asarray(x)])[:, None]
        x, y = c10.equivariant(f, R, lambda g: np.eye(1), n, rng, gs, mon, 'hamiltonian', m)
        for X in (x[0], x, x[:1], x.reshape(1, len(x), n)):
            mon.count('batches summed')
            h, h2 = net(jnp.asarray(X)), net.H(jnp.asarray(X))
            mon.check(np.shape(h) == () and np.shape(h2) == (), 'hamiltonian:shape', f"{m}: H of shape {np.shape(h)}")
            want = y[:X.size // n].sum()
            mon.err(max(abs(float(h) - want), abs(float(h2) - want)) / max(1e-2, np.abs(y).sum()), 2e-4, 'hamiltonian:sum', f"{m}: H of a batch is not the sum over the batch")
        field = jax.jit(jax.vmap(lambda z: jnp.asarray(J, jnp.float32) @ jax.grad(net)(z)))
        F = lambda z: np.asarray(field(jnp.asarray(z)), float)
        c10.equivariant(F, R, R, n, rng, gs, mon, 'hamiltonian:dynamics', f"{m}: Hamiltonian vector field", tol=1e-3)
        mon.count('dynamics judged', len(gs))
        # gradient of the sum = gradients of the rows, as batched gradients are computed
        gb = np.asarray(jax.grad(net.H)(jnp.asarray(x)), float)
        mon.err(np.abs(gb - F(x) @ J).max(initial=0) / max(1e-2, np.abs(gb).max(initial=0)), 1e-3, 'hamiltonian:sum', f"{m}: the gradient for a batch is not that of its rows")
    if np.ptp(y) > 1e-4:
        mon.seen('nontrivial', name)
