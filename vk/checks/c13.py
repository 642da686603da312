"""C13: automatic channel allocation and gating."""
TECHNIQUE = 'runtime monitoring: specification oracle (counting) over generated groups, channel counts and representations; perturbation monitor of gates'
NOTE = ('Held on the executions explored: allocated representations are decoded by type and counted against an independent specification of the allocation; gates are identified by '
        'perturbing them one at a time. The random remainder is judged only by its range and, over many draws, its mean.')
import math
import numpy as np
from .. import ref, gen, build
from ..core import Inconclusive
from . import nets
from .c10 import set_params

RULE = "a case is a group with channel counts, or a representation whose gates are examined; nontrivial if there is a tensor of rank > 0; distinct by group and channel count or expression"
ASSUMPTIONS = ["groups of dimension 1 only up to 30 channels (see known_findings.json)"]
NEED = {'allocations': 120, 'gated reps': 30, 'gates perturbed': 40, 'types counted': 800, 'distinct nontrivial': 80, 'networks decoded': 2, 'remainders drawn': 150}
PRELOAD = ['torch', 'flax', 'haiku']
QUICK_S = 34
GROUPS = [g for g in gen.LIB + gen.USER]
KNOWN = [dict(k='dim1', g='SO(1)', ch=40)]


def cases(tier, seed):
    rng = gen.case_rng('c13', seed)
    yield from KNOWN
    groups = list(GROUPS)
    i = 0
    while True:
        rng.shuffle(groups)
        for g in groups:
            i += 1
            rg = ref.group(g)
            if rg.d == 1:
                yield dict(k='alloc', g=g, chs=[rng.randint(1, 16) for _ in range(4)], s=i)
            elif rg.d <= 8:
                top = 500 if tier == 'quick' else 6000
                yield dict(k='alloc', g=g, chs=[rng.randint(1, 60) for _ in range(2)] + [rng.randint(60, top) for _ in range(2)] + [boundary(rng, rg.d)], s=i)
            e = gated_rep(rng, rg, rng.choice([6, 20, 60, 150]), rng.random() < .2)
            yield dict(k='gate', g=g, e=e, s=rng.randrange(10 ** 6), d=rng.random() < .3)
            if i % 3 == 0 and not rg.orth and rg.d in (2, 3):
                yield dict(k='remainder', g=g, s=i)
            if i % 25 == 0:
                yield dict(k='net', g=rng.choice(['SO(3)', 'SL(2)', 'S(3)', 'O13()']), ch=rng.choice([13, 30, 45]), L=rng.randint(1, 2), how=rng.choice(['int', 'list']), s=i)


def gated_rep(rng, rg, m, user):
    if rng.random() < .5:
        return nets.io_rep(rng, rg, max(m, rg.d))
    return gen.rep(rng, [rg], m, depth=rng.randint(0, 3), user=user)


def boundary(rng, d):
    r = rng.randint(0, 3 if d < 5 else 2)
    return max(1, (r + 1) * d ** r * rng.choice([1, 1, 2]) + rng.choice([-1, 0, 1]))


def allocation(ch, d):
    """number of tensors of each rank"""
    N = {}
    while ch > 0:
        r = 0
        while (r + 2) * d ** (r + 1) <= ch:
            r += 1
        m = ch // ((r + 1) * d ** r)
        if d == 1:
            m = 1
        for k in range(r + 1):
            N[k] = N.get(k, 0) + m * d ** (r - k)
        ch -= m * (r + 1) * d ** r
    return N


def pieces(r):
    try:
        return list(r)
    except TypeError:
        return [r]


def decode(r, G, orth, top, mon, name):
    """(rank, p) of every tensor in a rep, in order"""
    from emlp.reps import T
    table = {}
    for k in range(top + 1):
        for p in range(k + 1):
            table.setdefault(T(p, k - p, G), (k, k if orth else p))
    out = []
    for x in pieces(r):
        mon.count('types counted')
        t = table.get(x)
        mon.check(t is not None, 'allocation:type', f"{name}: {x} is not a tensor of rank at most {top}")
        out.append(t)
    return out


def check_alloc(r, ch, G, rg, mon, name, rng, act):
    mon.count('allocations')
    mon.check(r.size() == ch, 'allocation:size', f"{name}: size {r.size()}, {ch} asked for")
    N = allocation(ch, rg.d)
    ts = decode(r, G, rg.orth, max(N), mon, name)
    have = {}
    for k, p in ts:
        have.setdefault(k, []).append(p)
    mon.check({k: len(v) for k, v in have.items()} == {k: n for k, n in N.items() if n}, 'allocation:ranks', f"{name}: tensors per rank {({k: len(v) for k, v in sorted(have.items())})}, {N} expected")
    if not rg.orth:
        for k, ps in have.items():
            each, left = divmod(N[k], 2 ** k)
            for p in range(k + 1):
                n = ps.count(p)
                lo = each * math.comb(k, p)
                mon.check(lo <= n <= lo + left, 'allocation:symmetry', f"{name}: {n} tensors T({p},{k - p}), between {lo} and {lo + left} expected")
    if act and ch <= 400:
        g = rg.sample(rng)
        gi = np.linalg.inv(g).T
        x = rng.randn(ch)
        want, i = [], 0
        for k, p in ts:
            M = ref._kron([g] * p + [gi] * (k - p))
            want.append(M @ x[i:i + rg.d ** k]); i += rg.d ** k
        import jax.numpy as jnp
        got = np.asarray(r.rho(jnp.asarray(g, jnp.float32)) @ jnp.asarray(x, jnp.float32))
        mon.close(got, np.concatenate(want), 2e-3, 'allocation:action', f"{name}: the representation does not act by its tensors")
    if max(N) > 0:
        mon.seen('nontrivial', (str(G), ch))


def run(case, mon):
    if case['k'] == 'dim1':
        from emlp.nn import uniform_rep
        r = uniform_rep(case['ch'], build.group(ref.group(case['g'])))
        mon.check(r.size() == case['ch'], 'allocation:size', 'one dimensional group')
        return
    rg = ref.group(case['g'])
    G = build.group(rg)
    rng = np.random.RandomState(np.random.randint(2 ** 31))
    globals()['run_' + case['k']](case, rg, G, rng, mon)


def run_alloc(case, rg, G, rng, mon):
    from emlp.nn import uniform_rep
    for j, ch in enumerate(case['chs']):
        r = uniform_rep(ch, G)
        check_alloc(r, ch, G, rg, mon, f"{ch} channels for {case['g']}", rng, j in (0, 3))


def run_remainder(case, rg, G, rng, mon):
    """the remainder of each rank is drawn symmetrically: over many draws neither type is preferred"""
    from emlp.nn import uniform_rep
    ch = 2 * rg.d
    N = allocation(ch, rg.d)
    tot, n = 0, 0
    for _ in range(120):
        r = uniform_rep(ch, G)
        for k, p in decode(r, G, rg.orth, max(N), mon, case['g']):
            if k == 1:
                tot += p; n += 1
    if rg.orth or not N.get(1, 0) % 2:
        return
    mon.count('remainders drawn', n)
    mon.check(abs(tot - n / 2) <= 6.5 * math.sqrt(n) / 2, 'allocation:symmetry', f"{ch} channels for {case['g']}: of {n} vectors drawn {tot} are V and {n - tot} V*")


def run_net(case, rg, G, rng, mon):
    """the hidden representations networks choose are such allocations (seen through their gates)"""
    import emlp.nn as nn
    from emlp.reps import V, Scalar
    seen = []
    net = nn.EMLP(2 * V, V, G, ch=case['ch'] if case['how'] == 'int' else [case['ch']] * case['L'], num_layers=case['L'])
    import objax

    def walk(m):
        if type(m).__name__ == 'GatedNonlinearity':
            seen.append(m.rep)
        for v in list(vars(m).values()) + (list(m) if isinstance(m, list) else []):
            if isinstance(v, objax.Module):
                walk(v)
    walk(net)
    mon.check(len(seen) == case['L'], 'network:layers', f"{len(seen)} hidden layers, {case['L']} asked for")
    for r in seen:
        mon.count('networks decoded')
        check_alloc(r, case['ch'], G, rg, mon, f"hidden representation of {case['ch']} channels for {case['g']}", rng, True)


# ------------------------------------------------------------------------------- gates
def labels(e, rg, fresh):
    """per coordinate: (identity of the tensor, is it a scalar, is it a permutation representation)"""
    t = e[0]
    d = rg.d
    atom = lambda n, scalar, perm: [((next(fresh),), scalar, perm)] * n
    if t == 'S': return atom(1, True, True)
    if t == 'int': return [x for _ in range(e[1]) for x in atom(1, True, True)]
    if t == 'V': return atom(d, False, rg.perm)
    if t == 'T': return atom(d ** (e[1] + e[2]), e[1] + e[2] == 0, rg.perm or e[1] + e[2] == 0)
    if t in ('P', 'P2', 'Q', 'psi'): return atom(ref.size(e, [rg]), False, None)
    if t == 'D': return labels(e[1], rg, fresh)
    if t == '+': return [x for y in e[1] for x in labels(y, rg, fresh)]
    if t == 'n': return [x for _ in range(e[1]) for x in labels(e[2], rg, fresh)]

    def times(a, b):
        both = lambda p, q: None if p is None or q is None else p and q
        return [(x[0] + y[0], x[1] and y[1], both(x[2], y[2])) for x in a for y in b]
    if t == '*':
        out = [((), True, True)]
        for y in e[1]:
            out = times(out, labels(y, rg, fresh))
        return out
    if t == '**':
        out = [((), True, True)]
        for _ in range(e[2]):
            out = times(out, labels(e[1], rg, fresh))
        return out if e[2] else atom(1, True, True)
    a, b = (e[2], e[1]) if t == '>>' else (e[1], e[2])
    return times(labels(a, rg, fresh), labels(b, rg, fresh))


def user_perm(e, rg):
    """the flags of user defined reps are not settled by their groups"""
    return any(a[0] in ('P', 'P2', 'Q', 'psi') for a in gen.atoms(e))


def run_gate(case, rg, G, rng, mon):
    import itertools
    import jax.numpy as jnp
    import emlp.nn as nn
    e = ref.tup(case['e'])
    if user_perm(e, rg) and rg.perm:
        raise Inconclusive('whether a user defined rep of permutations permutes')
    rep = build.rep(e, [G], case['d'])
    name = f"{case['g']}: {ref.show(e)}"
    lab = labels(e, rg, itertools.count())
    n = rep.size()
    mon.check(n == len(lab), 'gated:size', f"{name}: size {n}, {len(lab)} expected")
    # coordinates of scalars which are products of scalars are one tensor per coordinate anyway
    tensors = {}
    for i, (k, sc, pm) in enumerate(lab):
        if not sc and not pm:
            tensors.setdefault(k, []).append(i)
    G1 = nn.gated(rep)
    mon.count('gated reps')
    mon.check(G1.size() == n + len(tensors), 'gated:size', f"{name}: gated has size {G1.size()}, {n} and {len(tensors)} gates expected")
    mon.check(rep.size() == n, 'gated:size', f"{name}: gating modified the representation")
    if tensors:
        mon.seen('nontrivial', name)
    # the gates are invariant and come last
    g = ref.elems([rg], rng)
    x = rng.randn(G1.size())
    want = np.concatenate([ref.rho(e, g) @ x[:n], x[n:]])
    got = np.asarray(G1.rho(build.elem(g, [G], [rg])) @ jnp.asarray(x, jnp.float32)) if True else None
    sc = max(1., np.abs(ref.rho(e, g)).sum(1).max(initial=0))
    mon.err(np.abs(got - want).max(initial=0) / sc, 1e-3, 'gated:action', f"{name}: gated does not act as the representation with invariant gates at the end")
    # which gate multiplies which channel
    f = backend(case['s'] % 4, rep)
    v = rng.randn(2, G1.size()).astype(np.float32)
    out = f(v)
    mon.check(out.shape == (2, n), 'gate:shape', f"{name}: the nonlinearity returns shape {out.shape}")
    sig = lambda z: 1 / (1 + np.exp(-z.astype(float)))
    own = [i for i in range(n) if lab[i][1] or lab[i][2]]
    mon.close(out[:, own], (sig(v[:, own]) * v[:, own]), 1e-5, 'gate:scalars', f"{name}: scalars and permutation representations are not gated by themselves")
    gate_of = {}
    for j in range(n, G1.size()) if len(tensors) <= 40 else rng.choice(np.arange(n, G1.size()), 40, replace=False):
        w = v.copy()
        w[:, j] += 1.5
        ch = np.flatnonzero(np.abs(f(w) - out).max(0) > 1e-6 * np.abs(v[:, :n]).max(0))
        mon.count('gates perturbed')
        ch = [int(c) for c in ch]
        owner = [k for k, c in tensors.items() if c[0] in ch or set(c) & set(ch)]
        mon.check(len(owner) == 1 and tensors[owner[0]] == ch, 'gate:channels', f"{name}: gate {j - n} multiplies channels {ch[:20]}, which belong to {len(owner)} tensors")
        mon.check(owner[0] not in gate_of, 'gate:channels', f"{name}: a tensor has two gates")
        gate_of[owner[0]] = j
    for k, j in gate_of.items():
        c = tensors[k]
        mon.close(out[:, c], sig(v[:, [j]]) * v[:, c], 1e-5, 'gate:values', f"{name}: a tensor is not multiplied by the sigmoid of its gate")
    if len(tensors) <= 40:
        mon.check(len(gate_of) == len(tensors), 'gate:channels', f"{name}: {len(tensors) - len(gate_of)} tensors have no gate")


def backend(i, rep):
    import emlp.nn as nn
    if i == 0:
        m = nn.GatedNonlinearity(rep)
        return lambda v: np.asarray(m(np.asarray(v)))
    if i == 1:
        import emlp.nn.flax as m
        m = m.GatedNonlinearity(rep)
        return lambda v: np.asarray(m.apply({}, np.asarray(v)))
    if i == 2:
        import emlp.nn.haiku as m
        m = m.GatedNonlinearity(rep)
        return lambda v: np.asarray(m(np.asarray(v)))
    import torch
    import emlp.nn.pytorch as m
    m = m.GatedNonlinearity(rep)
    return lambda v: m(torch.tensor(v)).detach().numpy()
