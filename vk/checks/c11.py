"""C11: the four backends compute the same functions of the same parameters, with the same gradients; all are equivariant;
saving, loading and copying parameters does not change the function."""
TECHNIQUE = 'runtime monitoring: differential oracle (four implementations fed the same parameters) and metamorphic oracle over generated networks'
NOTE = ('Held on the executions explored: layers and networks of generated specifications are built in objax, Flax, Haiku and PyTorch, given the same parameters, and their values and '
        'gradients compared with each other on batches of several shapes; equivariance is judged for each by independent group elements. Trusts float32 tolerances.')
import contextlib
import copy
import io
import os
import pickle
import zlib
import numpy as np
from .. import ref, gen, build
from ..core import Inconclusive
from . import nets

RULE = "a case is a layer or network specification built in all four backends; nontrivial if the function is not constant; distinct by specification"
ASSUMPTIONS = ["float32 arithmetic; residuals are relative to the size of the values compared",
               "the random choices made while networks are built are made the same for all backends by stubbing numpy's generators by functions of their arguments"]
NEED = {'networks': 5, 'layers': 5, 'values compared': 150, 'gradients compared': 150, 'group elements applied': 200, 'parameters reloaded': 20, 'distinct nontrivial': 12}
PRELOAD = ['torch', 'flax', 'haiku']
QUICK_S = 42
TOL = 1e-4
GROUPS = ["SO(2)", "SO(3)", "O(2)", "O(3)", "C(4)", "D(3)", "D(4)", "Z(3)", "Z(4)", "S(3)", "S(4)", "SO13p()", "O13()", "SO11p()", "Sp(1)", "SL(2)", "Cube()", "Scaling(2)",
          "Trivial(2)", "GL(2)", "SO2eR3()", "DkeR3(3)", "Prod(Z(2),Z(3))", "ZksZnxZn(2,2)", "SL(3)", "Embed(S(3),4,1,4)"]
FIXED = [dict(k='net', g='SO(3)', i=('n', 2, ('V', 0)), o=('V', 0), ch=['rep', ('V', 0)], L=1), dict(k='net', g='S(4)', i=('+', (('V', 0), ('T', 0, 0, 0))), o=('T', 2, 0, 0), ch=20, L=2),
         dict(k='net', g='SL(2)', i=('+', (('T', 0, 1, 0), ('n', 2, ('T', 1, 0, 0)))), o=('+', (('T', 0, 2, 0), ('T', 0, 0, 0), ('V', 0))), ch={'list': [['rep', ('+', (('T', 2, 0, 0), ('n', 3, ('T', 0, 0, 0)), ('V', 0)))], 12]}, L=2)]


def cases(tier, seed):
    rng = gen.case_rng('c11', seed)
    fixed = [dict(c, s=seed) for c in FIXED]
    groups = list(GROUPS)
    i = 0
    while True:
        rng.shuffle(groups)
        for g in groups:
            i += 1
            if fixed and i % 3 == 0:
                yield fixed.pop(0)
            rg = ref.group(g)
            s = rng.randrange(10 ** 6)
            k = rng.choice(['net', 'net', 'Linear', 'Linear', 'BiLinear', 'GatedNonlinearity', 'EMLPBlock', 'MLP'])
            if k in ('net', 'MLP'):
                ein, eout, ch, L = nets.random_spec(rng, rg, 14 if tier == 'quick' else 30, (6, 12, 20) if tier == 'quick' else (12, 20, 40, 70))
                yield dict(k=k, g=g, i=ein, o=eout, ch=rng.randint(2, 7) if k == 'MLP' else ch, L=min(L, 2), s=s)
            else:
                f = (lambda m: gen.rep(rng, [rg], m, depth=2)) if k == 'Linear' else (lambda m: nets.io_rep(rng, rg, m))
                yield dict(k=k, g=g, i=f(12), o=f(14), s=s)


@contextlib.contextmanager
def same_choices(salt):
    """numpy's random choices become functions of their arguments"""
    names = ['choice', 'binomial', 'permutation', 'randint']
    old = {n: getattr(np.random, n) for n in names}

    def stub(n):
        def f(*a, **k):
            return getattr(np.random.RandomState(zlib.crc32(repr((salt, n, a, sorted(k.items()))).encode()) % 2 ** 31), n)(*a, **k)
        return f
    try:
        for n in names:
            setattr(np.random, n, stub(n))
        yield
    finally:
        for n in names:
            setattr(np.random, n, old[n])


class Backend:
    """f(x), params as {path: array}, value and gradients of sum(c*f(x))"""

    def slots(self):
        """parameters in order of the layers, per kind: w2 (matrices), b (biases), w1 (bilinear)"""
        out = {'w2': [], 'b': [], 'w1': []}
        for p, a in self.get():
            last = p[-1]
            kind = 'b' if last in ('b', 'bias') else ('w2' if len(a.shape) == 2 else 'w1')
            out[kind].append((p, a))
        return out


class Objax(Backend):
    name = 'objax'

    def __init__(self, make):
        import emlp.nn as nn
        self.m = make(nn)

    def get(self):
        return [((k.rsplit('.', 1)[-1],), np.asarray(v.value)) for k, v in self.m.vars().items()]

    def set(self, arrays):
        import jax.numpy as jnp
        self.m.vars().assign([jnp.asarray(a) for a in arrays])

    def __call__(self, x):
        return np.asarray(self.m(x))

    def grads(self, x, c):
        import jax
        import jax.numpy as jnp
        vc = self.m.vars()
        p0 = vc.tensors()

        def loss(p, x):
            vc.assign(p)
            return jnp.sum(self.m(x) * c)
        try:
            gp, gx = jax.grad(loss, (0, 1))(p0, jnp.asarray(x))
        finally:
            vc.assign(p0)
        return [np.asarray(g) for g in gp], np.asarray(gx)

    def reload(self, scratch, make):
        import objax
        import emlp.nn as nn
        path = os.path.join(scratch, 'objax.npz')
        objax.io.save_var_collection(path, self.m.vars())
        other = make(nn)
        objax.io.load_var_collection(path, other.vars())
        return [(lambda x: np.asarray(other(x)))]


def flatten(d, path=()):
    for k in d:
        if hasattr(d[k], 'items'):
            yield from flatten(d[k], path + (k,))
        else:
            yield path + (k,), d[k]


def unflatten(items):
    out = {}
    for p, a in items:
        d = out
        for k in p[:-1]:
            d = d.setdefault(k, {})
        d[p[-1]] = a
    return out


def natural(p):
    import re
    return [tuple((0, int(t), '') if t.isdigit() else (1, 0, t) for t in re.findall(r'\d+|\D+', k)) for k in p]


class Jaxlike(Backend):
    def __init__(self, make, nin):
        import jax
        self.m = make(self.module())
        self.make_apply()
        try:
            self.p = self.init(jax.random.PRNGKey(np.random.randint(2 ** 31)), np.zeros((2, nin), np.float32))
        except Exception:
            raise
        self.order = [p for p, _ in flatten(self.p)]

    def get(self):
        d = dict(flatten(self.p))
        return [(p, np.asarray(d[p])) for p in self.order]

    def set(self, arrays):
        import jax.numpy as jnp
        self.p = unflatten([(p, jnp.asarray(a)) for p, a in zip(self.order, arrays)])

    def __call__(self, x):
        return np.asarray(self.apply(self.p, x))

    def grads(self, x, c):
        import jax
        import jax.numpy as jnp
        gp, gx = jax.grad(lambda p, x: jnp.sum(self.apply(p, x) * c), (0, 1))(self.p, jnp.asarray(x))
        d = dict(flatten(gp))
        return [np.asarray(d[p]) for p in self.order], np.asarray(gx)


class Flax(Jaxlike):
    name = 'flax'

    def module(self):
        import emlp.nn.flax as m
        return m

    def make_apply(self):
        self.init = self.m.init
        self.apply = self.m.apply

    def __init__(self, make, nin):
        super().__init__(make, nin)
        # layers in the order in which they are applied: their names are numbered
        self.order.sort(key=lambda p: natural(p[:-1]))

    def reload(self, scratch, make):
        import flax
        b = flax.serialization.to_bytes(self.p)
        p = flax.serialization.from_bytes(self.p, b)
        q = pickle.loads(pickle.dumps({k: v for k, v in flax.core.unfreeze(self.p).items()} if hasattr(flax.core, 'unfreeze') else self.p))
        m2 = make(self.module())
        return [lambda x: np.asarray(self.m.apply(p, x)), lambda x: np.asarray(m2.apply(q, x))]


class Haiku(Jaxlike):
    name = 'haiku'

    def module(self):
        import emlp.nn.haiku as m
        return m

    def make_apply(self):
        import haiku as hk
        t = hk.without_apply_rng(hk.transform(lambda x: self.m(x)))
        self.init, self.apply = t.init, t.apply

    def __init__(self, make, nin):
        super().__init__(make, nin)
        self.order.sort(key=lambda p: natural(p[:-1]))

    def reload(self, scratch, make):
        import haiku as hk
        q = pickle.loads(pickle.dumps(self.p))
        m2 = make(self.module())
        t = hk.without_apply_rng(hk.transform(lambda x: m2(x)))
        return [lambda x: np.asarray(t.apply(q, x))]


class Torch(Backend):
    name = 'pytorch'

    def __init__(self, make):
        import emlp.nn.pytorch as tnn
        self.m = make(tnn)

    def get(self):
        ps = [(tuple(n.split('.')), p.detach().numpy().copy()) for n, p in self.m.named_parameters()]
        return ps

    def set(self, arrays):
        import torch
        with torch.no_grad():
            for p, a in zip(self.m.parameters(), arrays):
                p.copy_(torch.tensor(np.asarray(a)))

    def __call__(self, x):
        import torch
        return self.m(torch.tensor(np.array(x))).detach().numpy()

    def grads(self, x, c):
        import torch
        t = torch.tensor(np.array(x), requires_grad=True)
        ps = list(self.m.parameters())
        for p in ps:
            p.grad = None
        (self.m(t) * torch.tensor(np.array(c))).sum().backward()
        return [np.zeros(tuple(p.shape), np.float32) if p.grad is None else p.grad.numpy().copy() for p in ps], t.grad.numpy().copy()

    def reload(self, scratch, make):
        import torch
        import emlp.nn.pytorch as tnn
        path = os.path.join(scratch, 'torch.pt')
        torch.save(self.m.state_dict(), path)
        other = make(tnn)
        other.load_state_dict(torch.load(path))
        dc = copy.deepcopy(self.m)
        w = [p for p in other.parameters()]
        run = lambda m: (lambda x: m(torch.tensor(np.array(x))).detach().numpy())

        def nograd(x):
            with torch.no_grad():
                return self.m(torch.tensor(np.array(x))).numpy()
        self.m.eval()
        return [run(other), run(dc), nograd]


def run(case, mon):
    import jax
    rg = ref.group(case['g'])
    G = build.group(rg)
    ein, eout = ref.tup(case['i']), ref.tup(case['o'])
    rng = np.random.RandomState(np.random.randint(2 ** 31))
    k = case['k']
    name = f"{k} {case['g']}: {ref.show(ein)} -> {ref.show(eout)}" + (f", ch={case['ch']}, {case['L']} layers" if 'ch' in case else '')
    if k == 'net' or k == 'MLP':
        e_in, e_out = ein, eout
        f = 'EMLP' if k == 'net' else 'MLP'

        def make(nn):
            with same_choices(case['s']):
                return getattr(nn, f)(build.rep(ein, [None]), build.rep(eout, [None]), G, ch=nets.build_ch(case['ch']), num_layers=case['L'])
        mon.count('networks')
    else:
        repin, repout = build.rep(ein, [G]), build.rep(eout, [G])
        e_in, e_out = ein, eout
        if k == 'GatedNonlinearity':
            import emlp.nn as nn0
            extra = nn0.gated(repout).size() - repout.size()
            e_in = ('+', (eout, ('n', extra, ('S',)))) if extra else eout

        def make(nn):
            with same_choices(case['s']):
                return nn.GatedNonlinearity(repout) if k == 'GatedNonlinearity' else getattr(nn, k)(repin, repout)
        mon.count('layers')
    nin, nout = ref.size(e_in, [rg]), ref.size(e_out, [rg])
    bs = [Objax(make), Flax(make, nin), Haiku(make, nin), Torch(make)]
    if case['s'] % 2: bs[-1].m.eval()   # (the same function of the parameters in both modes)
    base = bs[0].slots()
    for b in bs[1:]:
        s = b.slots()
        for kind in base:
            sh = lambda l: [tuple(a.shape) for _, a in l]
            if k == 'MLP' and b.name == 'pytorch' and kind == 'w2':
                sh = lambda l: [tuple(a.shape) for _, a in l] if l is base[kind] else [tuple(a.T.shape) for _, a in l]
            want, got = sh(base[kind]), sh(s[kind])
            if k == 'MLP':   # inner dense layers have other names in the other backends
                want, got = sorted(want), sorted(got)
            mon.check(want == got, b.name + ':parameters', f"{name}: parameters of shapes {got}, {want} in objax")
    gs = [ref.elems([rg], rng) for _ in range(3)]
    for it in range(2):
        # the same parameters everywhere
        P = {kind: [(rng.randn(*a.shape) * (1 if len(a.shape) < 2 else 1 / np.sqrt(max(1, a.shape[-1]))) * (1.5 if it else 1)).astype(np.float32) for _, a in base[kind]] for kind in base}
        for b in bs:
            todo = {kind: list(P[kind]) for kind in P}
            arrays = []
            for p, a in b.get():
                kind = 'b' if p[-1] in ('b', 'bias') else ('w2' if len(a.shape) == 2 else 'w1')
                v = todo[kind].pop(0)
                if k == 'MLP' and b.name == 'pytorch' and kind == 'w2':
                    v = v.T
                mon.check(v.shape == a.shape, b.name + ':parameters', f"{name}: a parameter of shape {a.shape}, {v.shape} expected")
                arrays.append(v)
            b.set(arrays)
        x = rng.randn(*[(5,), (2, 3), (1,)][rng.randint(3)], nin).astype(np.float32)
        ys = [b(x) for b in bs]
        sc = max(np.abs(ys[0]).max(initial=0), 1e-2)
        one = x.reshape(-1, nin)[0]
        y1 = [b(one) for b in bs]
        for b, y, z in zip(bs, ys, y1):
            mon.count('values compared', 2)
            mon.check(y.shape == x.shape[:-1] + (nout,) and z.shape == (nout,), b.name + ':shape', f"{name}: output shapes {y.shape}, {z.shape} for batches {x.shape[:-1]} and ()")
            mon.err(np.abs(y - ys[0]).max(initial=0) / sc, TOL, b.name + ':values', f"{name}: {b.name} computes another function of the same parameters than objax")
            if it == 1 and case['s'] % 3 == 0:
                idx = np.random.RandomState(case['s']).randint(len(x.reshape(-1, nin)), size=[17, 33, 65, 130, 257][case['s'] % 5])
                mon.err(np.abs(b(x.reshape(-1, nin)[idx]) - ys[0].reshape(-1, nout)[idx]).max(initial=0) / sc, TOL, b.name + ':batch', f"{name}: {b.name} gives another result for a batch of {len(idx)}")
            mon.err(np.abs(z - y.reshape(-1, nout)[0]).max(initial=0) / sc, TOL, b.name + ':batch', f"{name}: {b.name} gives another result for a single row")
        if np.abs(ys[0]).max(initial=0) > 1e-3:
            mon.seen('nontrivial', name)
        if it == 1:
            for b in bs[1:3]:
                j = np.asarray(jax.jit(lambda p, x, b=b: b.apply(p, x))(b.p, x))
                mon.err(np.abs(j - ys[0]).max(initial=0) / sc, TOL, b.name + ':values', f"{name}: {b.name} computes another function under jit")
        if it == 1:   # inputs of other sizes
            xl = (rng.randn(3, nin) * 10 ** rng.uniform(-2, 2.5 if k in ('net', 'MLP') else 3.5)).astype(np.float32)
            yl = bs[0](xl)
            slack = 6 * np.abs(bs[0]((xl * (1 + 1e-6 * rng.uniform(-1, 1, xl.shape))).astype(np.float32)) - yl).max(initial=0)
            if np.isfinite(yl).all() and np.isfinite(slack):
                for b in bs[1:]:
                    mon.count('values compared')
                    mon.err(max(0, np.abs(b(xl) - yl).max(initial=0) - slack) / max(np.abs(yl).max(initial=0), 1e-2), TOL, b.name + ':values',
                            f"{name}: {b.name} computes another function of the same parameters than objax for inputs of size {np.abs(xl).max(initial=0):.2g}")
        if k != 'MLP':
            xs = rng.randn(3, nin).astype(np.float32)
            for b in bs:
                y = b(xs)
                d = rng.randn(3, nin)
                S = np.abs(b((xs + 1e-2 * d).astype(np.float32)) - y).max(initial=0) / 1e-2
                for g in gs[:2 if b is bs[0] else 3]:
                    A, B = ref.rho(e_in, g), ref.rho(e_out, g)
                    got, want = b((xs @ A.T).astype(np.float32)), y @ B.T
                    s = max(np.abs(want).max(initial=0), np.abs(got).max(initial=0), S * max(1, np.abs(A).sum(1).max(initial=0)), max(1, np.abs(B).sum(1).max(initial=0)) * np.abs(y).max(initial=0), 1e-2)
                    mon.count('group elements applied')
                    mon.err(np.abs(got - want).max(initial=0) / s, TOL, b.name + ':equivariance', f"{name}: {b.name}: f(rho(g)x) differs from rho(g)f(x)", g=[v.tolist() for v in g.values()])
        if it == 0:
            c = rng.randn(*ys[0].shape).astype(np.float32)
            gr = [b.grads(x, c) for b in bs]
            for b, (gp, gx) in zip(bs, gr):
                mon.count('gradients compared', 1 + len(gp))
                gsc = max(np.abs(gr[0][1]).max(initial=0), 1e-2)
                mon.err(np.abs(gx - gr[0][1]).max(initial=0) / gsc, 2 * TOL, b.name + ':input gradient', f"{name}: gradient of {b.name} with respect to the input differs from objax's")
                by = {}
                for (p, a), g in zip(b.get(), gp):
                    kind = 'b' if p[-1] in ('b', 'bias') else ('w2' if len(a.shape) == 2 else 'w1')
                    by.setdefault(kind, []).append(g.T if k == 'MLP' and b.name == 'pytorch' and kind == 'w2' else g)
                if b is bs[0]:
                    by0 = by
                for kind in by0:
                    for j, (g, g0) in enumerate(zip(by[kind], by0[kind])):
                        mon.err(np.abs(g - g0).max(initial=0) / max(np.abs(g0).max(initial=0), max(np.abs(h).max(initial=0) for hs in by0.values() for h in hs) * .03, 1e-2), 2 * TOL, b.name + ':gradient',
                                f"{name}: gradient of {b.name} with respect to parameter {kind}[{j}] differs from objax's")
    for b, y in zip(bs, ys):
        if not b.get():
            continue
        for again in b.reload(mon.scratch, make):
            mon.count('parameters reloaded')
            mon.err(np.abs(again(x) - y).max(initial=0) / sc, 1e-5, b.name + ':reload', f"{name}: {b.name} computes another function after its parameters were saved and loaded or copied")
        mon.err(np.abs(b(x) - y).max(initial=0) / sc, 1e-5, b.name + ':reload', f"{name}: saving, loading or differentiating changed the function")
