"""C20: simulated trajectories, chunks, cached datasets, averages, training steps and scripts of the experiments."""
TECHNIQUE = 'runtime monitoring: independent float64 integration (scipy DOP853, matrix exponentials) as oracle for recorded trajectories; conservation and metamorphic monitors; recorded optimizer steps replayed'
NOTE = ('Held on the executions explored: datasets of generated sizes, chunk lengths and time steps, generated Hamiltonians, vector fields, initial conditions and time points, loaders and training runs. '
        "Trusts scipy's integrator at tolerance 1e-10 and bounds scaled by the measured sensitivity of the flow to perturbations.")
import collections
import collections.abc
import os
import shutil
import sys
import numpy as np
from scipy.integrate import solve_ivp
from scipy.linalg import expm
from .. import core, gen, ref

RULE = "a case is a generated dataset, flow, loader or training run; distinct by specification"
ASSUMPTIONS = ["the Hamiltonian of the double spring pendulum is the one in the code (its invariance is judged, not its constants)", "datasets are cached under a scratch home directory"]
NEED = {'datasets': 6, 'chunks located': 25, 'trajectories compared': 60, 'flows': 10, 'caches reloaded': 6, 'averages': 20, 'training runs': 2, 'training steps replayed': 5, 'energies': 40, 'symmetries judged': 30, 'scripts': 1, 'checkpoints': 10, 'distinct nontrivial': 25}
QUICK_S = 38
PRELOAD = ['torch', 'torch.utils.data', 'pandas', 'matplotlib.pyplot', 'tensorboardX', 'dill', 'natsort']
_m = {}


def setup(mon):
    os.environ['TQDM_DISABLE'] = '1'
    os.environ['HOME'] = mon.scratch   # (datasets are cached under ~)
    collections.Iterable, collections.Mapping = collections.abc.Iterable, collections.abc.Mapping   # (oil was written for older Pythons)
    sys.path.insert(0, os.path.join(core.REPO, 'experiments'))
    from trainer import hamiltonian_dynamics, model_trainer, trainer, utils, classifier
    for m in (hamiltonian_dynamics, model_trainer, trainer, utils):
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(core.REPO)), m.__file__
    _m.update(hd=hamiltonian_dynamics, mt=model_trainer, tr=trainer, ut=utils, cl=classifier)
    from oil.logging.lazyLogger import LazyLogger
    LazyLogger.report = lambda self: None


def cases(tier, seed):
    rng = gen.case_rng('c20', seed)
    kinds = ['ds', 'flow', 'script', 'average', 'sym', 'flow', 'train', 'ds', 'average', 'rollout', 'ode', 'stop']
    i = 0
    while True:
        i += 1
        k = kinds[(i + i // 8) % len(kinds)]
        s = rng.randrange(10 ** 6)
        if k == 'ds':
            dt = rng.choice([.2, .1, .3, .05, .25, .7])
            L = rng.choice([1, 2, 3, 5, 6, 7, 9])
            yield dict(k=k, d=rng.choice(['SHO', 'DoubleSpringPendulum', 'DoubleSpringPendulum', 'random']), n=rng.choice([1, 3, 10, 110, 130]) if tier == 'quick' else rng.choice([1, 10, 130, 250, 500]), L=L, dt=dt,
                       T=rng.choice([L * dt * 1.0001, 2., 3., 4.5, 6.]), s=s)
        elif k in ('flow', 'ode'):
            yield dict(k=k, d=rng.choice([1, 2, 3]), n=rng.choice([1, 2, 5]), t=rng.choice(['grid', 'uneven', 'late', 'two']), kind=rng.choice(['quadratic', 'pendulum', 'quartic', 'spring']), s=s)
        else:
            yield dict(k=k, n=rng.choice([1, 4, 7, 10, 23]), bs=rng.choice([1, 3, 4, 10]), s=s)


def run(case, mon):
    rng = np.random.RandomState(np.random.randint(2 ** 31))
    globals()['do_' + case['k']](case, rng, mon)


# ------------------------------------------------------------------------------ reference dynamics (float64)

def J(n):
    d = n // 2
    return np.block([[np.zeros((d, d)), np.eye(d)], [-np.eye(d), np.zeros((d, d))]])


def grad_dsp(z):
    """of the double spring pendulum with unit constants (the second spring without the factor 1/2, as in the code)"""
    x1, x2, p1, p2 = z[:3], z[3:6], z[6:9], z[9:]
    r, q = np.linalg.norm(x1), np.linalg.norm(x1 - x2)
    f1 = (r - 1) * x1 / r
    f2 = 2 * (q - 1) * (x1 - x2) / q
    e = np.array([0, 0, 1.])
    return np.concatenate([f1 + f2 + e, -f2 + e, p1, p2])


def h_dsp(z):
    x1, x2, p1, p2 = z[:3], z[3:6], z[6:9], z[9:]
    return (p1 @ p1 + p2 @ p2) / 2 + (np.linalg.norm(x1) - 1) ** 2 / 2 + (np.linalg.norm(x1 - x2) - 1) ** 2 + x1[2] + x2[2]


def solve(f, z0, ts):
    ts = np.asarray(ts, float)
    if len(ts) == 1:
        return np.array([z0])
    s = solve_ivp(lambda t, z: f(z, t), (ts[0], ts[-1]), z0, method='DOP853', rtol=1e-10, atol=1e-12, t_eval=ts)
    assert s.success and s.y.shape[1] == len(ts), s.message
    return s.y.T


def sensitivity(f, z0, ts, rng):
    """growth of small perturbations along the trajectory"""
    a = solve(f, z0, ts)
    out = 1.
    for _ in range(2):
        d = rng.randn(len(z0))
        d *= 1e-5 / np.linalg.norm(d)
        out = max(out, (np.abs(solve(f, z0 + d, ts) - a).max(1) / 1e-5).max())
    return a, out


def judge(got, f, z0, ts, rng, mon, key, name, tol=5e-3):
    """a trajectory from z0 at times ts"""
    want, S = sensitivity(f, np.asarray(z0, float), ts, rng)
    mon.count('trajectories compared')
    mon.check(got.shape == want.shape, key + ':shape', f"{name}: trajectory of shape {got.shape}, {want.shape} expected")
    T = abs(ts[-1] - ts[0])
    sc = max(1., np.abs(want).max())
    mon.err(np.abs(got - want).max() / (sc * S * (1 + T)), tol, key, f"{name}: the trajectory does not solve the equations")
    return want, S


# ------------------------------------------------------------------------------ systems

def system(kind, d, rng):
    """(H(z) for jax, gradient in numpy, H in numpy), dimension 2d"""
    import jax.numpy as jnp
    if kind == 'quadratic':
        A = rng.randn(2 * d, 2 * d)
        M = A @ A.T / (2 * d) + .2 * np.eye(2 * d)
        Mj = jnp.asarray(M, jnp.float32)
        return (lambda z: z @ Mj @ z / 2), (lambda z: M @ z), (lambda z: z @ M @ z / 2), M
    if kind == 'pendulum':
        c = rng.uniform(.5, 2, d)
        return (lambda z: (z[d:] ** 2).sum() / 2 - (jnp.asarray(c) * jnp.cos(z[:d])).sum()), (lambda z: np.concatenate([c * np.sin(z[:d]), z[d:]])), (lambda z: (z[d:] ** 2).sum() / 2 - (c * np.cos(z[:d])).sum()), None
    if kind == 'quartic':
        c = rng.uniform(.5, 2, d)
        return (lambda z: (z[d:] ** 2).sum() / 2 + (jnp.asarray(c) * z[:d] ** 4).sum() / 4), (lambda z: np.concatenate([c * z[:d] ** 3, z[d:]])), (lambda z: (z[d:] ** 2).sum() / 2 + (c * z[:d] ** 4).sum() / 4), None
    w = rng.uniform(.5, 2)   # q and p coupled
    return (lambda z: (z[d:] ** 2).sum() / 2 + w * (z[:d] ** 2).sum() / 2 + .3 * (z[:d] @ z[d:])), (lambda z: np.concatenate([w * z[:d] + .3 * z[d:], z[d:] + .3 * z[:d]])), \
        (lambda z: (z[d:] ** 2).sum() / 2 + w * (z[:d] ** 2).sum() / 2 + .3 * z[:d] @ z[d:]), None


def times(kind, rng):
    if kind == 'grid': return np.arange(0, 2, .2)
    if kind == 'uneven': return np.concatenate([[0], np.cumsum(rng.uniform(.01, .5, 6))])
    if kind == 'late': return 1.5 + np.cumsum(rng.uniform(.05, .4, 5))
    return np.array([0., rng.uniform(.1, 2)])


def do_flow(case, rng, mon):
    import jax
    import jax.numpy as jnp
    hd = _m['hd']
    d, n = case['d'], case['n']
    H, g, h, M = system(case['kind'], d, rng)
    Jm = J(2 * d)
    f = lambda z, t: Jm @ g(z)
    ts = times(case['t'], rng)
    z0 = rng.randn(n, 2 * d).astype(np.float32)
    name = f"{case['kind']} Hamiltonian in {2 * d} dimensions, {case['t']} times"
    mon.count('flows')
    tj = jnp.asarray(ts, jnp.float32)
    zs = np.asarray(hd.BHamiltonianFlow(H, jnp.asarray(z0), tj), float)
    tight = np.asarray(hd.BHamiltonianFlow(H, jnp.asarray(z0), tj, tol=2e-6), float)
    mon.check(zs.shape == (n, len(ts), 2 * d) and tight.shape == zs.shape, 'flow:shape', f"{name}: rollouts of shape {zs.shape}")
    for i in range(n):
        want, S = judge(zs[i], f, z0[i], ts, rng, mon, 'flow', name)
        judge(tight[i], f, z0[i], ts, rng, mon, 'flow:tight', name + ', small tolerance', tol=5e-5)
        mon.close(zs[i, 0], z0[i], 1e-6, 'flow:start', f"{name}: the trajectory does not start at the initial condition")
        if i < 2:
            one = np.asarray(hd.HamiltonianFlow(H, jnp.asarray(z0[i]), tj), float)
            judge(one, f, z0[i], ts, rng, mon, 'flow:single', name + ', single')
            mon.count('batched compared with single')
            mon.err(np.abs(one - zs[i]).max() / (max(1, np.abs(want).max()) * S * (1 + ts[-1] - ts[0])), 1e-2, 'flow:batch', f"{name}: integrating a batch differs from integrating its members")
        e = np.array([h(z) for z in tight[i]])
        mon.count('energies')
        mon.err(np.ptp(e) / max(1, np.abs(e).max()), 2e-3, 'flow:energy', f"{name}: the energy is not conserved")
        if M is not None:
            ex = np.array([expm(Jm @ M * (t - ts[0])) @ z0[i] for t in ts])
            mon.close(want, ex, 1e-6, 'oracle', 'the reference integrator is wrong')
    mon.seen('nontrivial', (name, case['s']))
    # the pieces: symplectic form, packing, field
    z = rng.randn(*[(2 * d,), (3, 2 * d), (2, 3, 2 * d)][rng.randint(3)]).astype(np.float32)
    mon.close(np.asarray(hd.symplectic_form(jnp.asarray(z))), z @ Jm.T, 1e-7, 'symplectic', f"symplectic_form of shape {z.shape}")
    q, p = hd.unpack(jnp.asarray(z))
    mon.check(np.array_equal(q, z[..., :d]) and np.array_equal(p, z[..., d:]) and np.array_equal(hd.pack(q, p), z), 'pack', f"pack and unpack of shape {z.shape}")
    v = np.asarray(hd.hamiltonian_dynamics(H, jnp.asarray(z0[0]), float(rng.randn())))
    mon.close(v, f(z0[0].astype(float), 0), 1e-4, 'field', f"{name}: Hamiltonian vector field")


def do_ode(case, rng, mon):
    import jax.numpy as jnp
    hd = _m['hd']
    d, n = case['d'] + 1, case['n']
    A = rng.randn(d, d) * .7
    b = rng.randn(d)
    w = rng.uniform(.5, 2)
    nl = rng.rand() < .5
    Aj, bj = jnp.asarray(A, jnp.float32), jnp.asarray(b, jnp.float32)
    dyn = (lambda z, t: jnp.tanh(Aj @ z) + bj * jnp.sin(w * t)) if nl else (lambda z, t: Aj @ z + bj * jnp.sin(w * t))
    f = (lambda z, t: np.tanh(A @ z) + b * np.sin(w * t)) if nl else (lambda z, t: A @ z + b * np.sin(w * t))
    ts = times(case['t'], rng)
    z0 = rng.randn(n, d).astype(np.float32)
    name = f"vector field in {d} dimensions, {case['t']} times"
    mon.count('flows')
    zs = np.asarray(hd.BOdeFlow(dyn, jnp.asarray(z0), jnp.asarray(ts, jnp.float32)), float)
    mon.check(zs.shape == (n, len(ts), d), 'ode:shape', f"{name}: rollouts of shape {zs.shape}")
    for i in range(n):
        judge(zs[i], f, z0[i], ts, rng, mon, 'ode', name)
        mon.close(zs[i, 0], z0[i], 1e-6, 'ode:start', f"{name}: the trajectory does not start at the initial condition")
    i = rng.randint(n)
    one = np.asarray(hd.BOdeFlow(dyn, jnp.asarray(z0[i:i + 1]), jnp.asarray(ts, jnp.float32)), float)[0]
    want, S = judge(one, f, z0[i], ts, rng, mon, 'ode', name)
    mon.count('batched compared with single')
    mon.err(np.abs(one - zs[i]).max() / (max(1, np.abs(want).max()) * S * (1 + ts[-1] - ts[0])), 1e-2, 'ode:batch', f"{name}: integrating a batch differs from integrating its members")
    mon.seen('nontrivial', (name, case['s']))


# ------------------------------------------------------------------------------ datasets

def do_ds(case, rng, mon):
    hd = _m['hd']
    n, L, dt, T = case['n'], case['L'], case['dt'], case['T']
    if case['d'] == 'random':
        H0, g, h, M = system('quadratic', 2, rng)
        dim = 4

        class Random(hd.HamiltonianDataset):
            def H(self, z):
                return H0(z)

            def sample_initial_conditions(self, bs):
                return np.random.randn(bs, 4)
        base = Random
    else:
        base = getattr(hd, case['d'])
        g = grad_dsp if case['d'] == 'DoubleSpringPendulum' else (lambda z: z)
        h = h_dsp if case['d'] == 'DoubleSpringPendulum' else (lambda z: z @ z / 2)
        dim = 12 if case['d'] == 'DoubleSpringPendulum' else 2
    name = f"{case['d']}({n},{L},{dt},{T})"
    if T / dt < L + .01:
        T = L * dt * 1.2 + dt
    ics = []

    def recording(self, bs, orig=base.sample_initial_conditions):
        z = orig(self, bs)
        ics.append(np.array(z))
        return z
    cls = type(base)(base.__name__, (base,), dict(sample_initial_conditions=recording))
    shutil.rmtree(os.path.expanduser('~/datasets'), ignore_errors=True)
    args = dict(n_systems=n, chunk_len=L, dt=dt, integration_time=T)
    ds = cls(**args)
    mon.count('datasets')
    Z = np.asarray(ds.Zs, float)
    mon.check(Z.shape == (n, L, dim) and len(ds) == n, 'ds:shape', f"{name}: chunks of shape {Z.shape}, length {len(ds)}")
    mon.check(np.shape(ds.T) == (L,), 'ds:times', f"{name}: {np.shape(ds.T)} time points for chunks of {L}")
    mon.close(np.asarray(ds.T), dt * np.arange(L), 1e-5, 'ds:times', f"{name}: times of the chunks")
    long = np.asarray(ds.T_long, float)
    mon.check(abs(len(long) - T / dt) <= 1 and long[0] == 0 and np.abs(np.diff(long) - dt).max(initial=0) < 1e-4 and long[-1] < T + 1e-4, 'ds:times', f"{name}: long times {long[:3]}..{long[-1]}")
    f = lambda z, t: J(dim) @ g(z)
    z0 = np.concatenate(ics)[:n].astype(np.float32).astype(float)
    mon.check(len(z0) == n, 'ds:systems', f"{name}: {len(np.concatenate(ics))} initial conditions were drawn")
    mon.check(n == 1 or len(np.unique(z0.round(7), axis=0)) == n, 'ds:systems', f"{name}: initial conditions are repeated")
    # (chunks of different systems are different)
    mon.check(n == 1 or len(np.unique(Z.reshape(n, -1).round(6), axis=0)) == n, 'ds:systems', f"{name}: {n - len(np.unique(Z.reshape(n, -1).round(6), axis=0))} chunks are repeated")
    energy = np.array([h(z) for z in Z[:, 0]])
    mon.check(n == 1 or len(z0) < n or np.abs(energy - [h(z) for z in z0]).max() <= 1e-3 * max(1., np.abs(energy).max()) * (1 + T), 'ds:energy', f"{name}: energies of the chunks are not those of their initial conditions")
    starts = set()
    for i in (range(n) if n <= 8 else rng.choice(n, 8, replace=False)):
        # a piece of the trajectory of system i
        traj, S = sensitivity(f, z0[i], long, rng)
        m = len(long) // L
        d = [np.abs(traj[j * L:(j + 1) * L] - Z[i]).max() for j in range(m)]
        any_ = [np.abs(traj[j:j + L] - Z[i]).max() for j in range(len(long) - L + 1)]
        j = int(np.argmin(any_))
        mon.count('chunks located')
        sc = max(1., np.abs(traj).max())
        mon.err(any_[j] / (sc * S * (1 + T)), 1e-3, 'ds:chunk', f"{name}: chunk {i} is no contiguous piece of the trajectory of its initial condition")
        starts.add(j)
        judge(Z[i], f, Z[i, 0], np.asarray(dt * np.arange(L)), rng, mon, 'ds:dynamics', f"{name}: chunk {i}")
        e = np.array([h(z) for z in Z[i]])
        mon.count('energies')
        mon.err(np.abs(e - h(z0[i])).max() / max(1., np.abs(e).max()) / (1 + T), 1e-3, 'ds:energy', f"{name}: the energy of chunk {i} is not that of its initial condition")
        (ic, t), target = ds[int(i)]
        mon.check(np.array_equal(ic, ds.Zs[i, 0]) and np.array_equal(target, ds.Zs[i]) and np.array_equal(t, ds.T), 'ds:item', f"{name}: item {i}")
    if len(long) // L >= 4 and n >= 8:
        mon.check(len(starts) > 1, 'ds:chunk', f"{name}: all chunks are taken from the same place")
    # chunks are sampled from all of the trajectories: of 120 systems in place of n, whose state is the time
    m = max(2, len(long) // L)
    if m <= 20 and hasattr(ds, "chunk_training_data"):
        tr = np.tile((np.arange(m * L + rng.randint(L)) + .5)[None, :, None], (150, 1, 2)) + 1000. * np.arange(150)[:, None, None]
        part = np.asarray(ds.chunk_training_data(tr, L))
        mon.count('samplings')
        ok = part.shape == (150, L, 2)
        mon.check(ok, 'ds:sampling', f"{name}: chunks of {tr.shape} have shape {part.shape}")
        if ok:
            mon.check(np.array_equal(part[:, 0, 0] // 1000, np.arange(150)) and (L == 1 or np.all(np.diff(part, axis=1) == 1)), 'ds:sampling', f"{name}: chunks are not contiguous pieces of their trajectories")
            first, last = part[:, 0, 0] % 1000, part[:, -1, 0] % 1000
            # (each of m <= 20 places has a chance of 1 - (1 - 1/m)^150 of being taken, and at least one of the three first and three last ones is never missed)
            mon.check(first.min() < min(3, m // 2) * L and last.max() > (m - min(3, m // 2)) * L, 'ds:sampling', f"{name}: chunks of {L} are only taken from {first.min()} to {last.max()} of {tr.shape[1]} times")
            if m <= 6:
                mon.check(len(np.unique(first)) >= m, 'ds:sampling', f"{name}: chunks of {L} are only taken from {len(np.unique(first))} of {m} places")
    # the cache
    before = len(ics)
    again = cls(**args)
    mon.count('caches reloaded')
    mon.check(len(ics) == before, 'cache', f"{name}: a cached dataset is generated again")
    mon.check(type(again.Zs) is type(ds.Zs) and again.Zs.dtype == ds.Zs.dtype and np.array_equal(again.Zs, ds.Zs), 'cache', f"{name}: reloaded chunks differ from those generated")
    mon.check(np.array_equal(again.T, ds.T) and np.array_equal(again.T_long, ds.T_long), 'cache', f"{name}: reloaded times differ")
    (a, b), c = again[0]
    mon.check(np.array_equal(a, ds.Zs[0, 0]) and np.array_equal(c, ds.Zs[0]), 'cache', f"{name}: reloaded items differ")
    # other arguments are not confused with these
    other = dict(args, **{rng.choice(['n_systems', 'chunk_len']): None})
    if other['n_systems'] is None: other['n_systems'] = n + 1
    if other['chunk_len'] is None: other['chunk_len'] = L + 1 if len(long) > L else max(1, L - 1)
    u = rng.rand()
    if u < .5: other = dict(args, dt=float(dt * rng.choice([.5, .8, .98, .999, .9])))
    elif u < .75: other = dict(args, integration_time=float(T * rng.choice([2, 1.4, 1.04, 1.01])))
    o = cls(**other)
    mon.check(o.Zs.shape == (other['n_systems'], other['chunk_len'], dim) and len(ics) > before, 'cache', f"{name}: the dataset with arguments {other} was loaded from another's cache")
    zo = np.asarray(o.Zs[0], float)
    judge(zo, f, zo[0], np.asarray(o.T, float), rng, mon, 'ds:dynamics', f"{name}, then {other}")
    if rng.rand() < .4:   # another system with the same arguments
        cls2 = type(base)(base.__name__ + 'Twin', (base,), dict(sample_initial_conditions=recording))
        before = len(ics)
        tw = cls2(**args)
        mon.check(len(ics) > before and not np.array_equal(tw.Zs, ds.Zs), 'cache', f"{name}: a dataset of another class was loaded from its cache")
    if rng.rand() < .5:
        new = cls(regen=True, **args)
        mon.check(not np.array_equal(new.Zs, ds.Zs), 'cache', f"{name}: regenerating gives the same dataset")
        third = cls(**args)
        mon.check(np.array_equal(third.Zs, new.Zs), 'cache', f"{name}: a regenerated dataset is not the one reloaded")
        mon.count('caches reloaded')
    shutil.rmtree(os.path.expanduser('~/datasets'), ignore_errors=True)
    mon.seen('nontrivial', name)


def do_sym(case, rng, mon):
    """the pendulum: invariant under rotations and reflections which fix the vertical; so are its flow and the declared representation"""
    import jax
    import jax.numpy as jnp
    hd = _m['hd']
    ds = object.__new__(hd.DoubleSpringPendulum)
    shutil.rmtree(os.path.expanduser('~/datasets'), ignore_errors=True)
    real = hd.DoubleSpringPendulum(n_systems=2, chunk_len=2, dt=.2, integration_time=.8)
    shutil.rmtree(os.path.expanduser('~/datasets'), ignore_errors=True)
    rg = ref.group('O2eR3()')
    from .. import build
    mon.check(real.symmetry == build.group(rg), 'symmetry', f"the symmetry of the pendulum is {real.symmetry}")
    mon.check(tuple(np.asarray(s).item() for s in real.stats) == (0, 1, 0, 1), 'symmetry', "the statistics of the pendulum do not commute with its symmetry")
    rin, rout = real.rep_in(real.symmetry), real.rep_out(real.symmetry)
    mon.check(rin.size() == 12 and rout.size() == 1, 'symmetry', f"the representations of the pendulum have sizes {rin.size()}, {rout.size()}")
    n = 4
    z = np.asarray(real.sample_initial_conditions(n), np.float32)
    mon.check(z.shape == (n, 12), 'symmetry', f"initial conditions of shape {z.shape}")
    z = (z + rng.randn(n, 12) * .3).astype(np.float32)
    ts = np.arange(0, 1.5, .3)
    for i in range(n):
        mon.err(abs(float(real.H(jnp.asarray(z[i]))) - h_dsp(z[i].astype(float))) / max(1, abs(h_dsp(z[i].astype(float)))), 1e-4, 'energy', "the Hamiltonian of the pendulum is not the one described")
    mon.err(abs(float(real.H(jnp.asarray(z))) - sum(h_dsp(r.astype(float)) for r in z)) / 10, 1e-4, 'energy', "the Hamiltonian of a batch is not the sum")
    base = np.asarray(hd.BHamiltonianFlow(real.H, jnp.asarray(z), jnp.asarray(ts), tol=2e-6), float)
    f = lambda x, t: J(12) @ grad_dsp(x)
    Ss = [judge(base[i], f, z[i], ts, rng, mon, 'flow:tight', 'pendulum', tol=1e-4)[1] for i in range(n)]
    lib = np.asarray(real.integrate(jnp.asarray(z[0]), jnp.asarray(ts)), float)
    judge(lib, f, z[0], ts, rng, mon, 'flow', 'pendulum, integrate')
    for _ in range(3):
        g = ref.elems([rg], rng)
        R = np.asarray(rin.rho_dense(jnp.asarray(g[0], jnp.float32)), float)
        mon.close(R, np.kron(np.eye(4), g[0]), 1e-5, 'symmetry', "the declared representation of the pendulum's states")
        gz = (z @ R.T).astype(np.float32)
        for i in range(n):
            mon.count('symmetries judged')
            mon.err(abs(float(real.H(jnp.asarray(gz[i]))) - float(real.H(jnp.asarray(z[i])))) / max(1, abs(h_dsp(z[i]))), 1e-4, 'symmetry', "the pendulum's Hamiltonian is not invariant")
        tr = np.asarray(hd.BHamiltonianFlow(real.H, jnp.asarray(gz), jnp.asarray(ts), tol=2e-6), float)
        for i in range(n):
            mon.count('symmetries judged')
            mon.err(np.abs(tr[i] - base[i] @ R.T).max() / (5 * Ss[i]), 6e-4, 'symmetry:flow', "the pendulum's flow is not equivariant")
    mon.seen('nontrivial', case['s'])


# ------------------------------------------------------------------------------ averages, training

class Data:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return self.x[i], self.y[i]


def loader(ds, bs, shuffle=False):
    from torch.utils.data import DataLoader
    return _m['ut'].LoaderTo(DataLoader(ds, batch_size=bs, shuffle=shuffle, num_workers=0, pin_memory=False))


def do_average(case, rng, mon):
    import jax.numpy as jnp
    n, bs = case['n'], case['bs']
    x = rng.randn(n, 3).astype(np.float32)
    y = rng.randn(n, 2).astype(np.float32)
    t = object.__new__(_m['tr'].Trainer)
    name = f"average over {n} samples in batches of {bs}"
    per = lambda a, b: (np.asarray(a, float).sum(-1) ** 2 + np.asarray(b, float)[..., 0])
    want = per(x, y).mean()
    avg = _m['tr'].Trainer.evalAverageMetrics
    seen = []

    def metric(mb):
        seen.append([np.array(a) for a in mb])
        return float(per(*mb).mean())
    for what, l in (('loader', loader(Data(x, y), bs)), ('shuffled loader', loader(Data(x, y), bs, True)), ('list of batches', [(x[i:i + bs], y[i:i + bs]) for i in range(0, n, bs)])):
        seen.clear()
        mon.count('averages')
        got = float(avg(t, l, metric))
        mon.check(sum(len(s[0]) for s in seen) == n, 'average:batches', f"{name}, {what}: {sum(len(s[0]) for s in seen)} samples were seen")
        mon.err(abs(got - want) / max(1, abs(want)), 1e-5, 'average', f"{name}, {what}: not the average over the samples")
        if what != 'shuffled loader':
            mon.check(np.array_equal(np.concatenate([s[0] for s in seen]), x) and np.array_equal(np.concatenate([s[1] for s in seen]), y), 'average:batches', f"{name}, {what}: the batches are not the data")
        else:
            a = np.concatenate([np.concatenate(s, 1) for s in seen])
            b = np.concatenate([x, y], 1)
            mon.check(np.array_equal(a[np.lexsort(a.T)], b[np.lexsort(b.T)]), 'average:batches', f"{name}, {what}: the batches are not the data")
    mon.check(np.ndim(avg(t, loader(Data(x, y), bs), lambda mb: np.array([1., 2.]))) == 1, 'average', f"{name}: vector valued metrics")
    try:
        avg(t, [], metric)
        mon.check(False, 'average:empty', "an empty loader has an average")
    except KeyError:
        mon.count('oracle decisions')
    # nested batches as for trajectories: ((z0, ts), zs)
    z = rng.randn(n, 4, 2).astype(np.float32)
    nested = Data(z, z)
    nested.__class__ = type('Nested', (Data,), {'__getitem__': lambda s, i: ((s.x[i, 0], np.arange(4.)), s.x[i])})
    mon.count('averages')
    got = float(avg(t, loader(nested, bs), lambda mb: float(np.asarray(mb[1]).mean() + np.asarray(mb[0][0]).mean())))
    mon.err(abs(got - (z.mean() + z[:, 0].mean())), 1e-5, 'average', f"{name}: not the average over the samples of nested batches")
    mb = next(iter(loader(nested, bs)))
    import jax
    mon.check(all(isinstance(a, jax.Array) for a in jax.tree_util.tree_leaves(mb)) and np.shape(mb[0][1]) == (min(bs, n), 4) and np.array_equal(mb[1], z[:bs]), 'average:batches', f"{name}: minibatches on their way to jax")
    # full metrics of regressors and classifiers
    from objax import Module
    W = rng.randn(3, 2).astype(np.float32)

    class M(Module):
        def __call__(self, x, training=True):
            return x @ W

        def predict(self, x):
            return self(x)
    r = object.__new__(_m['cl'].Regressor)
    r.model = M()
    mon.count('averages')
    mon.close(float(r.metrics(loader(Data(x, y), bs))['MSE']), ((x @ W - y) ** 2).mean(), 1e-4, 'average:MSE', f"{name}: mean squared error")
    mon.close(float(r.loss((jnp.asarray(x), jnp.asarray(y)))), ((x @ W - y) ** 2).mean(), 1e-4, 'loss', f"{name}: loss of a regressor")
    c = object.__new__(_m['cl'].Classifier)
    c.model = M()
    lab = rng.randint(2, size=n)
    mon.count('averages')
    mon.close(float(c.metrics(loader(Data(x, lab), bs))['Acc']), ((x @ W).argmax(1) == lab).mean(), 1e-5, 'average:Acc', f"{name}: accuracy")
    lg = (x @ W).astype(float)
    ce = -np.mean((lg - np.log(np.exp(lg).sum(1, keepdims=True)))[np.arange(n), lab])
    mon.close(float(c.loss((jnp.asarray(x), jnp.asarray(lab)))), ce, 1e-4, 'loss', f"{name}: cross entropy")
    mon.seen('nontrivial', (n, bs, case['s']))


def do_train(case, rng, mon):
    """the training loop does one optimizer step per batch with the scheduled learning rate"""
    import jax.numpy as jnp
    import objax
    import emlp.nn as nn
    from emlp.reps import T, V
    from emlp.groups import SO, O, S
    n, bs = max(case['n'], 4), max(case['bs'], 3)
    G = [SO(3), O(2), S(4)][rng.randint(3)]
    rin, rout = 2 * V, T(0) + V
    ni, no = rin(G).size(), rout(G).size()
    x, y = rng.randn(n, ni).astype(np.float32), rng.randn(n, no).astype(np.float32)
    seed = rng.randint(10 ** 6)

    def make():
        np.random.seed(seed)
        objax.random.DEFAULT_GENERATOR.seed(seed)
        return nn.Standardize(nn.EMLP(rin, rout, G, ch=12, num_layers=1), (0., 1.5, 0., 2.))
    a, b = make(), make()
    same = all(np.array_equal(v.value, w.value) for v, w in zip(a.vars().values(), b.vars().values()))
    mon.check(same, 'train', 'the same seeds give different networks')
    lr = lambda e: 1e-2 / (1 + e)
    name = f"training on {n} samples in batches of {bs}"
    log = os.path.join(mon.scratch, 'log')
    test = Data(rng.randn(5, ni).astype(np.float32), rng.randn(5, no).astype(np.float32))
    batches = []

    class Spy(_m['mt'].RegressorPlus):
        def step(self, epoch, mb):
            batches.append((epoch, np.array(mb[0]), np.array(mb[1])))
            return super().step(epoch, mb)
    opt = [objax.optimizer.Adam, objax.optimizer.SGD, objax.optimizer.Momentum][rng.randint(3)]
    tr = Spy(a, {'train': loader(Data(x, y), bs, True), 'test': loader(test, 2)}, opt, lr, log_dir=log, log_args=dict(minPeriod=.02, timeFrac=.5))
    mon.count('training runs')
    epochs = 2 + rng.randint(2)
    tr.train(1)
    tr.train_to(epochs)
    per = -(-n // bs)
    mon.check(len(batches) == epochs * per, 'train:steps', f"{name}: {len(batches)} steps in {epochs} epochs of {per} batches")
    for e in range(epochs):
        part = batches[e * per:(e + 1) * per]
        got = np.concatenate([p[1] for p in part])
        mon.check(np.array_equal(got[np.lexsort(got.T)], x[np.lexsort(x.T)]), 'train:steps', f"{name}: epoch {e} does not run over the training data once")
        mon.close([p[0] for p in part], e + np.arange(per) / per, 1e-6, 'train:schedule', f"{name}: times of the steps of epoch {e}")
    # replay by hand
    vc = b.vars()
    o = opt(vc)
    gv = objax.GradValues(lambda x, y: jnp.mean((b(x, training=True) - y) ** 2), vc)
    step = objax.Jit(lambda x, y, r: o(r, gv(x, y)[0]), vc + o.vars())
    for e, bx, by in batches:
        step(jnp.asarray(bx), jnp.asarray(by), lr(e))
        mon.count('training steps replayed')
    X = jnp.asarray(test.x)
    ya, yb = np.asarray(a(X, training=False)), np.asarray(b(X, training=False))
    mon.close(ya, yb, 3e-3, 'train', f"{name}: training differs from its optimizer steps done by hand")
    mon.close(np.asarray(a.predict(X)), ya, 1e-4, 'train:predict', f"{name}: predict differs from the trained network")
    mon.close(float(tr.metrics(loader(test, 2))['MSE']), ((ya - test.y) ** 2).mean(), 1e-3, 'average:MSE', f"{name}: test error")
    err = float(tr.logger.scalar_frame['test_MSE'].iloc[-1]) if 'test_MSE' in tr.logger.scalar_frame else float('nan')
    mon.close(err, ((ya - test.y) ** 2).mean(), 1e-3, 'train:log', f"{name}: logged test error")
    # the equivariance error logged tells equivariant networks from others
    mb = (jnp.asarray(test.x), jnp.asarray(test.y))
    mon.check(float(_m['mt'].equivariance_err(a, mb)) < 1e-3, 'train:equivariance', f"{name}: logged equivariance error of an equivariant network")
    m = nn.Standardize(nn.MLP(rin, rout, G, ch=16, num_layers=1), (0., 1.5, 0., 2.))
    m.predict = lambda x: m(x, training=False)
    mon.check(float(_m['mt'].equivariance_err(m, mb)) > 5e-3, 'train:equivariance', f"{name}: logged equivariance error of an MLP")
    mon.seen('nontrivial', (name, case['s']))
    shutil.rmtree(log, ignore_errors=True)


def do_rollout(case, rng, mon):
    """losses and rollout errors of Hamiltonian and ODE networks"""
    import jax.numpy as jnp
    hd = _m['hd']
    n = min(case['n'], 4)
    z0 = rng.randn(n, 2).astype(np.float32)
    ts = np.arange(5) * .2
    a = rng.uniform(.7, 1.4)

    class Ds:
        T_long = np.arange(0, 1.5, .3).astype(np.float32)

        @staticmethod
        def H(z):
            return (z ** 2).sum() / 2
    model = lambda z, t=0.: a * (z ** 2).sum() / 2
    rot = lambda t, w=1.: np.array([[np.cos(w * t), np.sin(w * t)], [-np.sin(w * t), np.cos(w * t)]])
    true = np.stack([np.stack([rot(t) @ z for t in ts]) for z in z0])
    mb = ((jnp.asarray(z0), jnp.asarray(np.repeat(ts[None], n, 0), jnp.float32)), jnp.asarray(true, jnp.float32))
    name = f"oscillator of frequency {a:.3f} against 1"
    mon.count('rollouts')
    field = lambda z, t: a * jnp.array([z[1], -z[0]])
    for T, f in ((hd.IntegratedDynamicsTrainer, model), (hd.IntegratedODETrainer, field)):
        t = object.__new__(T)
        t.model = f
        want = np.mean([(rot(s, a) @ z - rot(s) @ z) ** 2 for z in z0 for s in ts])
        mon.close(float(T.loss(t, mb)), want, 2e-3, 'rollout:loss', f"{name}: loss of {T.__name__}")
    pa, pb = (np.stack([np.stack([rot(t, w) @ z for t in Ds.T_long]) for z in z0]) for w in (a, 1.))
    rel = np.sqrt(((pa - pb) ** 2).mean(-1)) / (np.sqrt((pa ** 2).mean(-1)) + np.sqrt((pb ** 2).mean(-1)))
    want = np.log(np.maximum(rel, 1e-7)).mean()
    # (small errors are dominated by the integration tolerance)
    if abs(a - 1) > .05:
        mon.close(float(hd.log_rollout_error(Ds, model, mb)), want, 1e-2, 'rollout:error', f"{name}: logarithm of the rollout error of a Hamiltonian")
        mon.close(float(hd.log_rollout_error_ode(Ds, field, mb)), want, 1e-2, 'rollout:error', f"{name}: logarithm of the rollout error of a vector field")
    perfect = float(hd.log_rollout_error(Ds, Ds.H, mb))
    mon.check(perfect < np.log(1e-5), 'rollout:error', f"{name}: rollout error of the true Hamiltonian is {np.exp(perfect)}")
    for pg, f in ((hd.pred_and_gt, model), (hd.pred_and_gt_ode, field)):
        p = np.asarray(pg(Ds, f, mb))
        mon.check(p.shape == (n, 5, 2, 2), 'rollout:error', f"{name}: {pg.__name__} has shape {p.shape}")
        mon.close(p, np.stack([pa, pb], -1), 1e-3, 'rollout:error', f"{name}: predicted and true trajectories")
    u, v = rng.randn(6), rng.randn(6)
    mon.close(float(hd.rel_err(jnp.asarray(u), jnp.asarray(v))), np.sqrt(((u - v) ** 2).mean()) / (np.sqrt((u ** 2).mean()) + np.sqrt((v ** 2).mean())), 1e-5, 'rollout:error', 'relative error')
    mon.seen('nontrivial', (name, n))


def do_stop(case, rng, mon):
    """the checkpoint is the evaluation which was best by the metric of early stopping"""
    import pandas as pd
    tr = _m['tr'].Trainer
    for metric, better in (('val_MSE', min), ('val_Acc', max), ('test_loss', min)):
        vals = [float(v) for v in rng.rand(3 + rng.randint(6))]
        rank = rng.randint(3)
        if rank == 1: vals = sorted(vals, reverse=better is min)       # improves
        if rank == 2: vals = sorted(vals, reverse=better is max)       # deteriorates

        class T(tr):
            def metrics(self, loader):
                return {metric.split('_')[1]: self.value}
        t = object.__new__(T)

        class Log:
            scalar_frame = pd.DataFrame()

            def add_scalars(self, name, scalars, step):
                new = pd.DataFrame({k: [v] for k, v in scalars.items()}, index=[step])
                self.scalar_frame = pd.concat([self.scalar_frame, new])

            def report(self):
                pass
        t.logger, t.early_stop_metric, t.dataloaders, t.ckpt, t.epoch = Log(), metric, {metric.split('_')[0]: [0], 'train': [0]}, None, 0
        for i, v in enumerate(vals):
            t.value, t.epoch = v, i
            t.logStuff(10 * i)
            mon.count('checkpoints')
            want = better(vals[:i + 1])
            got = float(t.ckpt['outcome'][metric].iloc[0]) if t.ckpt is not None else float('nan')
            mon.check(got == want and t.ckpt['epoch'] == vals.index(want), 'checkpoint', f"{metric} {[round(x, 3) for x in vals[:i + 1]]}: the checkpoint is the one with {got:.3f}")
        t.early_stop_metric = None
        t.value, t.epoch = .5, 77
        t.logStuff(1000)
        mon.check(float(t.ckpt['outcome'][metric].iloc[0]) == .5 and t.ckpt['epoch'] == 77, 'checkpoint', 'without early stopping the checkpoint is the last evaluation')
        mon.seen('nontrivial', (metric, case['s'], rank))


def do_script(case, rng, mon):
    """the scripts of the experiments: data by seed, disjoint splits, a trial to its end"""
    import importlib
    import jax
    which = ['train_regression', 'hnn', 'neuralode'][case['s'] % 3]
    mod = importlib.import_module(which)
    assert os.path.realpath(mod.__file__).startswith(os.path.realpath(core.REPO)), mod.__file__
    hd = _m['hd']
    log = os.path.join(mon.scratch, 'log')
    home = os.getcwd()
    shutil.rmtree(os.path.expanduser('~/datasets'), ignore_errors=True)
    N, bs, seed = 24 + rng.randint(10), 4 + rng.randint(4), rng.randint(10 ** 6)
    split = {'train': -1, 'val': 5, 'test': 6}
    cfg = dict(ndata=N, split=split, bs=bs, num_epochs=2, seed=seed, net_config={'num_layers': 1, 'ch': 10, 'group': None}, trainer_config={'log_dir': log, 'log_args': {'minPeriod': .02, 'timeFrac': .5}}, log_level='error')
    metric = [None, 'val_MSE', 'test_MSE'][rng.randint(3)]
    if metric: cfg['trainer_config']['early_stop_metric'] = metric
    import emlp.datasets
    import emlp.nn as nn
    from emlp.groups import SO2eR3
    if which == 'train_regression':
        cfg['dataset'] = [emlp.datasets.Inertia, emlp.datasets.O5Synthetic][rng.randint(2)]
        cfg['network'] = [nn.EMLP, nn.MLP][rng.randint(2)]
        cfg['aug'] = bool(cfg['network'] is nn.MLP and rng.randint(2))
    else:
        cfg['dataset'] = hd.DoubleSpringPendulum
        cfg['network'] = [nn.EMLPH, nn.MLPH][rng.randint(2)] if which == 'hnn' else [nn.EMLPode, nn.MLPode][rng.randint(2)]
        if rng.rand() < .5: cfg['net_config']['group'] = SO2eR3()
    name = f"{which} on {cfg['dataset'].__name__} with {cfg['network'].__name__}, batches of {bs} of {N} samples"
    mon.count('scripts')
    import copy
    import emlp.reps
    runs = []

    def make(**c):
        t = mod.makeTrainer(**c)
        runs.append(t)
        return t
    data = lambda t, k: [np.concatenate([np.asarray(mb[0][0] if which != 'train_regression' else mb[0]) for mb in t.dataloaders[k]])]
    os.chdir(mon.scratch)
    try:
        if which == 'train_regression':
            t = make(**copy.deepcopy(cfg))
            t.train(2)
            outcome = t.ckpt['outcome']
        else:
            trial = (hd.hnn_trial if which == 'hnn' else hd.ode_trial)(make)
            full = dict(copy.deepcopy(cfg), save=False)
            back, outcome = trial(full, 3)
            mon.check(back['num_epochs'] == 2 and back['seed'] == seed, 'script:trial', f"{name}: the configuration returned is another")
            t = runs[0]
            import torch
            files = [f for f in os.listdir('.') if f.endswith('_3.t')]
            mon.check(len(files) == 1, 'script:trial', f"{name}: trajectories saved are {files}")
            saved = np.asarray(torch.load(files[0], weights_only=False))
            os.unlink(files[0])
            te = t.dataloaders['test'].dataset
            z0 = np.concatenate([np.asarray(mb[0][0]) for mb in t.dataloaders['test']])
            long = np.asarray(te.T_long, float)
            mon.check(saved.shape == (len(te), len(long), z0.shape[1], 2), 'script:trial', f"{name}: trajectories saved have shape {saved.shape}")
            mon.err(np.abs(saved[:, 0] - z0[:, :, None]).max(), 1e-5, 'script:trial', f"{name}: trajectories saved do not start at the test initial conditions")
            k = 8    # (chaotic later)
            for i in range(2):
                judge(saved[i, :k, :, 1], lambda z, t: J(12) @ grad_dsp(z), z0[i], long[:k], rng, mon, 'script:trial', f"{name}: ground truth saved for {i}")
            m = t.model
            vf = (lambda z, t: np.asarray(m(jax.numpy.asarray(z, 'float32'), 0.), float)) if which == 'neuralode' else (lambda z, t: J(12) @ np.asarray(jax.grad(lambda x: m(x).sum())(jax.numpy.asarray(z, 'float32')), float))
            v = vf(saved[0, 0, :, 0], 0.)
            dz = (saved[0, 1, :, 0] - saved[0, 0, :, 0]) / (long[1] - long[0])
            mon.check(np.abs(dz).max() < 50 * (1 + np.abs(v).max()), 'script:trial', f"{name}: predictions saved do not follow the network")
        n = {k: sum(len(a) for a in data(t, k)) for k in ('train', 'val', 'test')}
        mon.check(n == dict(train=N - 11, val=5, test=6), 'script:splits', f"{name}: splits of sizes {n}")
        parts = np.concatenate([data(t, k)[0] for k in ('train', 'val', 'test')])
        mon.check(len(np.unique(parts.round(6), axis=0)) == N, 'script:splits', f"{name}: the splits overlap")
        a, b = (np.sort(data(t, k)[0], axis=0) for k in ('train', 'Train'))
        mon.check(np.array_equal(a, b), 'script:splits', f"{name}: training data evaluated differs from that trained on")
        fr = t.logger.scalar_frame
        mon.check(t.epoch == 2, 'script:train', f"{name}: stopped at epoch {t.epoch}")
        # the errors logged last are those of the network
        for k in ('val', 'test'):
            got = float(fr[f'{k}_MSE'].dropna().iloc[-1])
            if which == 'train_regression':
                mine = [(((np.asarray(t.model(mb[0], training=False)) - np.asarray(mb[1])) ** 2).mean(), len(mb[0])) for mb in t.dataloaders[k]] if not cfg['aug'] else None
            else:
                flow = hd.BHamiltonianFlow if which == 'hnn' else hd.BOdeFlow
                mine = [(((np.asarray(flow(lambda z, t: m(z, t), mb[0][0], mb[0][1][0])) - np.asarray(mb[1])) ** 2).mean(), len(mb[1])) for mb in t.dataloaders[k]] if which == 'neuralode' else [(((np.asarray(flow(lambda z: m(z), mb[0][0], mb[0][1][0])) - np.asarray(mb[1])) ** 2).mean(), len(mb[1])) for mb in t.dataloaders[k]]
            if mine:
                want = sum(v * c for v, c in mine) / sum(c for v, c in mine)
                mon.err(abs(got - want) / max(1e-3, abs(want)), 2e-2, 'script:log', f"{name}: {k} error logged against {want}")
        col = metric or 'val_MSE'
        vals = fr[col].dropna()
        want = vals.min() if metric else vals.iloc[-1]
        mon.check(float(outcome[col].iloc[0]) == float(want), 'checkpoint', f"{name}: the outcome has {col} {float(outcome[col].iloc[0])} of {list(vals)}")
        # the data is determined by the seed
        if which == 'train_regression':
            u = make(**copy.deepcopy(cfg))
            w = make(**dict(copy.deepcopy(cfg), seed=seed + 1))
            same, diff = ([np.asarray(x[0]) for x in (u.dataloaders['val'].dataset[i] for i in range(5))] for u in (u, w))
            mine = [np.asarray(t.dataloaders['val'].dataset[i][0]) for i in range(5)]
            mon.check(np.array_equal(mine, same), 'script:seed', f"{name}: another run with the same seed has other data")
            mon.check(not np.array_equal(mine, diff), 'script:seed', f"{name}: another seed gives the same data")
        mon.seen('nontrivial', (name, case['s']))
    finally:
        os.chdir(home)
        shutil.rmtree(log, ignore_errors=True)
        shutil.rmtree(os.path.expanduser('~/datasets'), ignore_errors=True)
