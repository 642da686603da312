"""C12: torchified JAX functions keep values and gradients, whatever the program of calls and backward passes."""
TECHNIQUE = 'runtime monitoring: shadow computation in JAX (model-based testing) over generated programs of forward and backward passes, with threads'
NOTE = ('Held on the executions explored: generated programs of calls, compositions, backward passes (repeated, accumulated, interleaved, of subsets) over generated functions are '
        'shadowed by pure JAX computations of values and accumulated gradients. Trusts jax.vjp as the definition of a vector-Jacobian product. Second derivatives through torchified functions are out of scope.')
import threading
import numpy as np
from .. import gen
from ..core import Violation

RULE = "a case is a program: functions, leaf tensors and a sequence of actions; nontrivial if it made a backward pass through a torchified function; distinct by program"
ASSUMPTIONS = ["float32 arithmetic; jax.vjp and jax.grad are trusted"]
NEED = {'forward calls': 400, 'backward passes': 150, 'gradients compared': 300, 'several outputs': 60, 'distinct nontrivial': 60, 'threads': 8, 'arguments without gradients': 60, 'in place changes': 12}
PRELOAD = ['torch', 'flax', 'haiku']
QUICK_S = 32
TOL = 2e-5
KINDS = ['program'] * 6 + ['threads', 'args', 'alias', 'pytree', 'complex', 'module']


def cases(tier, seed):
    rng = gen.case_rng('c12', seed)
    while True:
        yield dict(k=rng.choice(KINDS), s=rng.randrange(10 ** 9), n=rng.randint(4, 14 if tier == 'quick' else 30))


def setup(mon):
    import torch
    torch.set_num_threads(1)


def make_fn(rng, shapes_in):
    """a random differentiable function of len(shapes_in) arrays: (jax function, number of outputs, how they are returned)"""
    import jax
    import jax.numpy as jnp
    nout = rng.choice([1, 1, 1, 2, 3])
    specs = []
    for _ in range(nout):
        ops = []
        used = [i for i in range(len(shapes_in)) if rng.random() < .75] or [rng.randrange(len(shapes_in))]
        for i in used:
            ops.append((i, rng.choice(['sin', 'sq', 'lin', 'exp', 'mat', 'sum', 'cum', 'abs', 'id']), rng.randrange(10 ** 6)))
        specs.append((ops, rng.choice(['add', 'mul']), rng.choice([(3,), (2, 2), (), (1, 4), (0, 2)] if rng.random() < .9 else [(5,)])))
    how = 'array' if nout == 1 and rng.random() < .8 else 'tuple'

    def one(spec, args):
        ops, comb, shape = spec
        acc = None
        for i, op, s in ops:
            r = np.random.RandomState(s)
            x = jnp.reshape(jnp.asarray(args[i], jnp.float32), (-1,))
            n = x.shape[0]
            A = jnp.asarray(r.randn(int(np.prod(shape)), n) / max(n, 1) ** .5, jnp.float32)
            if op == 'sin': x = jnp.sin(x)
            elif op == 'sq': x = x * x * .5
            elif op == 'exp': x = jnp.exp(-x * x)
            elif op == 'cum': x = jnp.cumsum(x) * .3
            elif op == 'abs': x = jnp.sqrt(1 + x * x)
            elif op == 'sum': x = x + jnp.tanh(jnp.sum(x))
            y = jnp.reshape(A @ x, shape) if op != 'id' or n != int(np.prod(shape)) else jnp.reshape(x, shape)
            acc = y if acc is None else (acc + y if comb == 'add' else acc * jnp.cos(y))
        return acc

    def f(*args):
        ys = tuple(one(s, args) for s in specs)
        return ys[0] if how == 'array' else ys
    return f, [s[2] for s in specs], how


class Program:
    """a pool of tensors, each with a shadow: a pure JAX function of the leaves"""

    def __init__(self, rng, mon):
        import torch
        from emlp.nn.pytorch import torchify_fn
        import jax
        self.rng, self.mon, self.t, self.jax = rng, mon, torch, jax
        shapes = [(3,), (2, 2), (4,), (), (2, 3)]
        self.leaves, self.vals, self.pool = [], [], []
        for i in range(rng.randint(2, 4)):
            a = np.asarray(np.random.RandomState(rng.randrange(2 ** 31)).randn(*rng.choice(shapes)), np.float32)
            t = torch.tensor(a)
            r = rng.random()
            if t.dim() == 2 and r < .3:
                t = torch.tensor(np.ascontiguousarray(a.T)).T   # not contiguous
            if r > .25:
                t.requires_grad_()
            self.leaves.append(t); self.vals.append(a)
            self.pool.append((t, (lambda vs, i=i: vs[i])))
        self.grads = [None] * len(self.leaves)
        self.fns = []
        for _ in range(rng.randint(1, 4)):
            k = rng.randint(1, 3)
            f, shapes, how = make_fn(rng, [None] * k)
            self.fns.append((f, torchify_fn(f if rng.random() < .5 else jax.jit(f)), k, shapes, how))
        self.bp = 0

    def torchified_call(self):
        rng = self.rng
        f, tf, k, shapes, how = rng.choice(self.fns)
        args = [rng.choice(self.pool) for _ in range(k)]
        ver = [a[0]._version for a in args]
        before = [a[0].detach().numpy().copy() for a in args]
        nograd = rng.random() < .12
        if nograd:
            with self.t.no_grad():
                out = tf(*[a[0] for a in args])
        else:
            out = tf(*[a[0] for a in args])
        mon = self.mon
        mon.count('forward calls')
        mon.count('arguments without gradients', sum(not a[0].requires_grad for a in args))
        for a, b, v in zip(args, before, ver):
            mon.check(np.array_equal(a[0].detach().numpy(), b) and a[0]._version == v, 'modified', 'a call modified its input')
        if how == 'tuple':
            mon.count('several outputs')
        mon.check(isinstance(out, tuple) == (how == 'tuple'), 'structure', f"{type(out).__name__} returned for {how}")
        outs = out if how == 'tuple' else (out,)
        mon.check(len(outs) == len(shapes), 'structure', f"{len(outs)} outputs, {len(shapes)} expected")
        for j, o in enumerate(outs):
            def shadow(vs, j=j, args=args, nograd=nograd):
                y = f(*[a[1](vs) for a in args])
                y = y[j] if how == 'tuple' else y
                return self.jax.lax.stop_gradient(y) if nograd else y
            want = np.asarray(shadow(self.vals))
            mon.check(tuple(o.shape) == want.shape, 'values', f"output of shape {tuple(o.shape)}, {want.shape} expected")
            mon.close(o.detach().numpy(), want, TOL, 'values', 'a torchified function returns other values')
            mon.check(o.requires_grad == (not nograd and any(a[0].requires_grad for a in args)), 'requires_grad', f"output requires_grad={o.requires_grad} for arguments {[a[0].requires_grad for a in args]}, no_grad={nograd}")
            self.pool.append((o, shadow))

    def torch_op(self):
        rng = self.rng
        t, s = rng.choice(self.pool)
        op = rng.choice(['mul', 'flat', 'add', 'detach', 'T'])
        if op == 'mul': self.pool.append((t * 1.5, lambda vs: s(vs) * 1.5))
        elif op == 'flat': self.pool.append((t.reshape(-1), lambda vs: s(vs).reshape(-1)))
        elif op == 'add': self.pool.append((t + t.sin(), lambda vs: s(vs) + self.jax.numpy.sin(s(vs))))
        elif op == 'detach': self.pool.append((t.detach(), lambda vs: self.jax.lax.stop_gradient(s(vs))))
        elif t.dim() == 2: self.pool.append((t.T, lambda vs: s(vs).T))

    def loss(self):
        import jax.numpy as jnp
        rng = self.rng
        terms = [x for x in rng.sample(self.pool, min(len(self.pool), rng.randint(1, 3))) if x[0].requires_grad]
        if not terms:
            return None
        cs = [np.asarray(np.random.RandomState(rng.randrange(2 ** 31)).randn(*t.shape), np.float32) for t, _ in terms]
        L = sum((t * self.t.tensor(c)).sum() for (t, _), c in zip(terms, cs))
        return L, (lambda vs: sum(jnp.sum(s(vs) * c) for (_, s), c in zip(terms, cs)))

    def backward(self):
        r = self.loss()
        if r is None:
            return
        L, S = r
        rng, mon, jax = self.rng, self.mon, self.jax
        g = jax.grad(lambda vs: S(vs))([jax.numpy.asarray(v) for v in self.vals])
        g = [np.asarray(x) for x in g]
        times = 2 if rng.random() < .3 else 1
        mode = rng.choice(['backward', 'backward', 'autograd'])
        if mode == 'autograd':
            need = [i for i, t in enumerate(self.leaves) if t.requires_grad]
            if not need:
                return
            need = rng.sample(need, rng.randint(1, len(need)))
            got = self.t.autograd.grad(L, [self.leaves[i] for i in need], retain_graph=True, allow_unused=True)
            mon.count('backward passes')
            for i, x in zip(need, got):
                mon.count('gradients compared')
                x = np.zeros_like(self.vals[i]) if x is None else x.numpy()
                mon.close(x, g[i], TOL * 5, 'gradient', 'torch.autograd.grad through torchified functions differs from JAX')
        else:
            for _ in range(times):
                L.backward(retain_graph=True)
                mon.count('backward passes')
            for i, t in enumerate(self.leaves):
                if t.requires_grad:
                    self.grads[i] = (0 if self.grads[i] is None else self.grads[i]) + times * g[i].astype(float)
            self.compare()
        self.bp += 1

    def compare(self):
        for t, g in zip(self.leaves, self.grads):
            if not t.requires_grad:
                self.mon.check(t.grad is None, 'gradient', 'a tensor which does not require gradients has one')
                continue
            if g is None:
                continue
            self.mon.count('gradients compared')
            got = np.zeros(tuple(t.shape)) if t.grad is None else t.grad.numpy()
            self.mon.close(got, np.asarray(g), TOL * 8, 'gradient', 'accumulated gradient differs from JAX')

    def zero(self):
        for t in self.leaves:
            t.grad = None
        self.grads = [None] * len(self.leaves)

    def step(self):
        r = self.rng.random()
        if r < .45: self.torchified_call()
        elif r < .6: self.torch_op()
        elif r < .95: self.backward()
        else: self.zero()


def run(case, mon):
    import random
    rng = random.Random(case['s'])
    k = case['k']
    if k == 'threads':
        mon.count('threads', 4)
        shared = [make_fn(rng, [None] * 2) for _ in range(2)]
        from emlp.nn.pytorch import torchify_fn
        tfs = [(f, torchify_fn(f), 2, sh, how) for f, sh, how in shared]
        errs, seeds = [], [rng.randrange(10 ** 9) for _ in range(4)]
        start = threading.Barrier(4)

        def work(s):
            try:
                p = Program(random.Random(s), mon)
                p.fns = tfs
                start.wait()
                for _ in range(case['n']):
                    p.step()
                p.torchified_call(); p.backward(); p.compare()
            except BaseException as e:
                errs.append(e)
                start.abort()
        ts = [threading.Thread(target=work, args=(s,)) for s in seeds]
        [t.start() for t in ts]
        [t.join() for t in ts]
        errs = [e for e in errs if not isinstance(e, threading.BrokenBarrierError)]
        if errs:
            raise errs[0]
        mon.seen('nontrivial', case)
        return
    if k == 'program':
        p = Program(rng, mon)
        for _ in range(case['n']):
            p.step()
        p.torchified_call(); p.backward(); p.compare()
        # values computed before are unchanged by everything that followed
        for t, s in p.pool:
            mon.close(t.detach().numpy(), np.asarray(s(p.vals)), TOL, 'values', 'a value changed after it was returned')
        if p.bp:
            mon.seen('nontrivial', case)
        return
    globals()['run_' + k](case, rng, mon)


def grads_of(f, args, ct):
    import jax
    y, vjp = jax.vjp(f, *args)
    return y, vjp(ct)


def run_args(case, rng, mon):
    """integer, float64, python, numpy, expanded and empty arguments; any subset requires gradients; inputs overwritten between passes"""
    import torch
    import jax
    import jax.numpy as jnp
    from emlp.nn.pytorch import torchify_fn
    r = np.random.RandomState(case['s'] % 2 ** 31)
    n = int(r.randint(1, 6))
    x, y = r.randn(n, 3).astype(np.float32), r.randn(n).astype(np.float32)
    idx = r.randint(0, n, 4)
    f = lambda x, y, i, s: (jnp.sin(x)[i] * y[i][:, None] * s, x.sum(0) * jnp.sum(y * y))
    f3 = lambda x, y: f(x, y, jnp.asarray(idx), 1.5)
    tf = torchify_fn(f)
    masks = [(a, b) for a in (False, True) for b in (False, True)]
    r2 = [r.randn(4, 3).astype(np.float32), r.randn(3).astype(np.float32)]
    (a, b), (gx, gy) = grads_of(f3, (x, y), (r2[0], r2[1]))
    for mx, my in masks:
        X, Y = torch.tensor(x, requires_grad=mx), torch.tensor(y, requires_grad=my)
        I = torch.tensor(idx) if r.rand() < .7 else np.asarray(idx)
        s = 1.5 if r.rand() < .5 else torch.tensor(1.5)
        o = tf(X, Y, I, s)
        mon.count('forward calls'); mon.count('several outputs'); mon.count('arguments without gradients', 4 - mx - my)
        mon.close(o[0].detach().numpy(), a, TOL, 'values', 'a function with an index argument')
        mon.close(o[1].detach().numpy(), b, TOL, 'values', 'a function with an index argument')
        if mx or my:
            # the inputs are overwritten before the backward pass, as an optimizer may do
            if case['s'] % 2:
                with torch.no_grad():
                    X.mul_(0).add_(7); Y.mul_(0)
            which = r.randint(3)
            L = (o[0] * torch.tensor(r2[0])).sum() if which != 1 else 0
            L = L + (o[1] * torch.tensor(r2[1])).sum() if which != 0 else L
            L.backward()
            mon.count('backward passes')
            _, (wx, wy) = grads_of(f3, (x, y), (r2[0] * (which != 1), r2[1] * (which != 0)))
            for t, m, w in ((X, mx, wx), (Y, my, wy)):
                mon.check((t.grad is not None) == m, 'gradient', f"requires_grad={m} but grad {'is missing' if m else 'is there'}")
                if m:
                    mon.count('gradients compared')
                    mon.close(t.grad.numpy(), w, TOL * 3, 'gradient', 'gradient with a subset of outputs used and arguments overwritten after the call')
    # views and dtypes
    g = lambda x, y: jnp.cumsum(jnp.sin(x) * y, 0)
    tg = torchify_fn(g)
    X = torch.tensor(x.astype(np.float64), requires_grad=True)
    Y = torch.tensor(y[:1], requires_grad=True)
    o = tg(X.T.reshape(3, n), Y.expand(n))
    w = jax.grad(lambda x, y: jnp.sum(g(x.T, jnp.broadcast_to(y, (n,))) ** 2), (0, 1))(jnp.asarray(x), jnp.asarray(y[:1]))
    (o.double() ** 2).sum().backward()
    mon.count('backward passes'); mon.count('gradients compared', 2)
    mon.close(X.grad.numpy(), w[0], TOL * 5, 'gradient', 'gradient of a float64 transposed argument')
    mon.close(Y.grad.numpy(), w[1], TOL * 5, 'gradient', 'gradient of an expanded argument')
    # in-place changes of outputs do not reach other calls or the inputs
    h = torchify_fn(lambda x: x)
    X = torch.tensor(x, requires_grad=True)
    o1, o2 = h(X), h(X)
    with torch.no_grad():
        o1.mul_(0)
    mon.check(np.array_equal(o2.detach().numpy(), x) and np.array_equal(X.detach().numpy(), x), 'modified', 'an output shares memory with the input or another output')
    mon.seen('nontrivial', case)


def run_alias(case, rng, mon):
    """outputs and gradients may be changed in place (optimizers, clipping, normalization do) without reaching anything else"""
    import torch
    import jax
    import jax.numpy as jnp
    from emlp.nn.pytorch import torchify_fn
    from emlp.reps import V, T
    from emlp.groups import SO, S
    r = np.random.RandomState(case['s'] % 2 ** 31)
    n = r.randint(1, 70)
    x = r.randn(n).astype(np.float32)
    table, ntable, idx = jnp.asarray(r.randn(n).astype(np.float32)), r.randn(5, 2).astype(np.float32), jnp.arange(n)
    keep = [np.array(table), ntable.copy(), np.array(idx)]
    rep = rng.choice([T(2)(SO(3)), T(2)(S(4)), T(2)(S(3)), T(3)(SO(3))])   # those with dense bases
    Q = np.array(rep.equivariant_basis())
    F = {'input': lambda x: x, 'twice': lambda x: (x, x), 'table': lambda x: (x.sum(), table), 'numpy': lambda x: (x * 1, ntable), 'slice': lambda x: (x[:1], x[1:], table),
         'basis': lambda x: (x.sum(), rep.equivariant_basis()), 'index': lambda x: (x, idx), 'zero': lambda x: (x * 0, jnp.zeros(n)), 'sum': lambda x: x.sum(), 'linear': lambda x: table * x,
         'reshape': lambda x: (x.reshape(1, -1), x.reshape(-1, 1), table.reshape(-1, 1)), 'mix': lambda x: [table, x + table, table]}
    name = rng.choice(sorted(F))
    jf = F[name]
    tf = torchify_fn(jax.jit(jf) if rng.random() < .4 else jf)
    flat = lambda o: list(o) if isinstance(o, (tuple, list)) else [o]
    want = [np.array(y) for y in flat(jf(jnp.asarray(x)))]
    X = torch.tensor(x, requires_grad=rng.random() < .6)
    held = []
    for rounds in range(3):
        outs = flat(tf(X))
        mon.count('forward calls')
        if len(outs) > 1: mon.count('several outputs')
        mon.check(len(outs) == len(want), 'structure', f"{name}: {len(outs)} outputs, {len(want)} expected")
        for o, w in zip(outs, want):
            mon.close(o.detach().numpy(), w, TOL, 'modified', f"{name}: values after {rounds} rounds in which outputs and gradients were changed in place")
        mon.check(np.array_equal(X.detach().numpy(), x), 'modified', f"{name}: changing an output in place changed the input")
        for o, w in held:
            mon.check(np.array_equal(o.detach().numpy(), w), 'modified', f"{name}: an earlier output changed")
        if X.requires_grad:
            L = sum((o * o).sum() + 3 * o.sum() for o in outs if o.requires_grad and o.is_floating_point())
            if isinstance(L, torch.Tensor):
                X.grad = None
                L.backward(retain_graph=True)
                mon.count('backward passes')
                g = jax.grad(lambda x: sum((o * o).sum() + 3 * o.sum() for o, t in zip(flat(jf(x)), outs) if t.requires_grad and t.is_floating_point()))(jnp.asarray(x))
                mon.count('gradients compared')
                mon.close(X.grad.numpy(), g, TOL * 5, 'gradient', f"{name}: gradient in round {rounds}")
                first, = torch.autograd.grad(sum(o.sum() for o in outs if o.requires_grad), [X], retain_graph=True)
                with torch.no_grad():
                    first.mul_(0)
                second, = torch.autograd.grad(sum(o.sum() for o in outs if o.requires_grad), [X], retain_graph=True)
                mon.count('backward passes', 2)
                mon.close(second.numpy(), np.asarray(jax.grad(lambda x: sum(o.sum() for o, t in zip(flat(jf(x)), outs) if t.requires_grad))(jnp.asarray(x))), TOL * 5, 'gradient', f"{name}: a second gradient, after changing the first in place")
                X.grad.fill_(9)
        i = rng.randrange(len(outs))
        with torch.no_grad():
            for j, o in enumerate(outs):
                if j == i or rng.random() < .3:
                    o.detach().fill_(7)
                else:
                    held.append((o, o.detach().numpy().copy()))
    for a, b in zip((table, ntable, idx), keep):
        mon.check(np.array_equal(np.asarray(a), b), 'modified', f"{name}: an array the function refers to was changed through an output")
    mon.check(np.array_equal(np.array(rep.equivariant_basis()), Q), 'modified', 'a cached basis was changed through an output')
    mon.count('in place changes', 3)
    mon.seen('nontrivial', case)


def run_pytree(case, rng, mon):
    import torch
    import jax
    import jax.numpy as jnp
    from emlp.nn.pytorch import torchify_fn
    r = np.random.RandomState(case['s'] % 2 ** 31)
    a, b, c = [r.randn(3).astype(np.float32) for _ in range(3)]
    f = lambda d, l: {'u': [d['x'] * l[0], jnp.sin(d['y'])], 'v': (d['x'] * d['y'] * l[0]).sum()}
    req = [rng.random() < .7 for _ in range(3)]
    ts = [torch.tensor(v, requires_grad=q) for v, q in zip((a, b, c), req)]
    o = torchify_fn(f)({'x': ts[0], 'y': ts[1]}, [ts[2]])
    mon.count('forward calls'); mon.count('several outputs')
    want = f({'x': a, 'y': b}, [c])
    mon.check(isinstance(o, dict) and isinstance(o['u'], list), 'structure', 'a dict of lists is returned as something else')
    mon.close(o['u'][0].detach().numpy(), want['u'][0], TOL, 'values', 'pytree')
    mon.close(o['u'][1].detach().numpy(), want['u'][1], TOL, 'values', 'pytree')
    mon.close(o['v'].detach().numpy(), want['v'], TOL, 'values', 'pytree')
    if any(req):
        (o['u'][0].sum() + 2 * o['u'][1].sum() + 3 * o['v']).backward()
        w = jax.grad(lambda a, b, c: (lambda o: o['u'][0].sum() + 2 * o['u'][1].sum() + 3 * o['v'])(f({'x': a, 'y': b}, [c])), (0, 1, 2))(a, b, c)
        mon.count('backward passes')
        for t, q, x in zip(ts, req, w):
            mon.check((t.grad is not None) == q, 'gradient', 'pytree: a gradient is missing or superfluous')
            if q:
                mon.count('gradients compared')
                mon.close(t.grad.numpy(), x, TOL * 3, 'gradient', 'gradient through pytrees')
        mon.seen('nontrivial', case)


def run_complex(case, rng, mon):
    import torch
    import jax.numpy as jnp
    from emlp.nn.pytorch import torchify_fn
    r = np.random.RandomState(case['s'] % 2 ** 31)
    z = (r.randn(4) + 1j * r.randn(4)).astype(np.complex64)
    w = (r.randn(4, 4) + 1j * r.randn(4, 4)).astype(np.complex64)
    F = [(lambda z: jnp.asarray(w) @ z, lambda z: torch.tensor(w) @ z), (lambda z: jnp.abs(z) ** 2, lambda z: z.abs() ** 2),
         (lambda z: z * z * jnp.conj(z), lambda z: z * z * z.conj()), (lambda z: z.real * (1 + 2j), lambda z: z.real * (1 + 2j))]
    jf, tf = rng.choice(F)
    a, b = torch.tensor(z, requires_grad=True), torch.tensor(z, requires_grad=True)
    pre = rng.choice([lambda t: t, lambda t: t.conj(), lambda t: t * 2])
    post = rng.choice([lambda t: t, lambda t: t.conj()])
    c = torch.tensor((r.randn(4) + 1j * r.randn(4)).astype(np.complex64))
    p, q = post(torchify_fn(jf)(pre(a))), post(tf(pre(b)))
    mon.count('forward calls')
    mon.close(p.detach().resolve_conj().numpy(), q.detach().resolve_conj().numpy(), TOL, 'values', 'complex')
    (p * c).real.sum().backward()
    (q * c).real.sum().backward()
    mon.count('backward passes'); mon.count('gradients compared')
    mon.close(a.grad.resolve_conj().numpy(), b.grad.resolve_conj().numpy(), TOL * 5, 'gradient', "gradient of a complex function differs from PyTorch's own")
    mon.seen('nontrivial', case)


def run_module(case, rng, mon):
    """an equivariant PyTorch layer inside of a PyTorch program: parameter gradients over several steps"""
    import torch
    import jax
    import jax.numpy as jnp
    import emlp.nn.pytorch as tnn
    from emlp.reps import V, T, bilinear_weights
    from emlp.groups import SO, S
    from emlp.nn.pytorch import torchify_fn
    G = rng.choice([SO(3), S(3), SO(2)])
    rin, rout = (2 * V)(G), (V + T(2))(G)
    wd, proj = bilinear_weights(rout, rin)
    tp = torchify_fn(jax.jit(proj))
    r = np.random.RandomState(case['s'] % 2 ** 31)
    P = torch.tensor(r.randn(wd).astype(np.float32), requires_grad=True)
    want, outs = 0, []
    for i in range(3):
        x = r.randn(2, rin.size()).astype(np.float32)
        c = r.randn(2, rout.size(), rin.size()).astype(np.float32)
        X = torch.tensor(x, requires_grad=i != 1)
        W = tp(P, X)
        mon.count('forward calls')
        mon.close(W.detach().numpy(), proj(P.detach().numpy(), x), TOL, 'values', 'bilinear weights')
        gp, gx = jax.grad(lambda p, x: jnp.sum(proj(p, x) * c), (0, 1))(jnp.asarray(P.detach().numpy()), jnp.asarray(x))
        outs.append(((W * torch.tensor(c)).sum(), X, np.asarray(gx)))
        want = want + np.asarray(gp, float)
    rng.shuffle(outs)   # backward in another order than forward
    for L, X, gx in outs:
        L.backward()
        mon.count('backward passes')
        if X.requires_grad:
            mon.count('gradients compared')
            mon.close(X.grad.numpy(), gx, TOL * 5, 'gradient', 'gradient with respect to the input, backward passes in another order')
    mon.count('gradients compared')
    mon.close(P.grad.numpy(), want, TOL * 8, 'gradient', 'accumulated parameter gradient over several calls')
    mon.seen('nontrivial', case)
