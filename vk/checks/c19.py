"""C19: splitting, reordering and reassembling vectors by type loses nothing."""
TECHNIQUE = 'runtime monitoring: conservation (each coordinate exactly once), metamorphic (group action commutes with splitting and reordering) and reference-model oracles over generated sums'
NOTE = ('Held on the executions explored: generated sums (nested, with repeated and user defined types, products, several groups), their rewritings in other orders, '
        'vectors and batches of several shapes and dtypes; canonical forms compared between equivalent sums and across worker processes with different hash seeds.')
import numpy as np
from .. import ref, gen, build
from . import c03

RULE = ("a case is a group (or two) and a sum of representations, with shuffled and regrouped equivalents; splitting, canonicalizing, iterating; "
        "nontrivial if there are at least two types; distinct by group and expression")
ASSUMPTIONS = ["the order of the copies of one type is not specified and compared as a set where only that matters",
               "sums are equivalent if they have the same summands in another order or grouping"]
NEED = {'splits': 400, 'canonical forms': 200, 'equivalent sums': 200, 'summands located': 400, 'actions compared': 400, 'distinct nontrivial': 80}
QUICK_S = 30
GROUPS = gen.LIB + gen.USER + gen.COMPLEX


def cases(tier, seed):
    rng = gen.case_rng('c19', seed)
    groups = list(GROUPS)
    while True:
        rng.shuffle(groups)
        for i, g in enumerate(groups):
            rg = ref.group(g)
            s = rng.randrange(10 ** 6)
            m = rng.choice([20, 60, 100]) if tier == 'quick' else rng.choice([20, 60, 100, 300])
            if i % 12 == 5:
                yield dict(k='atoms', g=g, e=gen.big(rng, [rg], 300), s=s)
            elif rng.random() < .6:
                yield dict(k='atoms', g=g, e=atomic(rng, [rg], m, rng.random() < .3), s=s)
            else:
                yield dict(k='any', g=g, e=gen.nested(rng, [rg], m, user=rng.random() < .3) if rng.random() < .4 else gen.rep(rng, [rg], m, depth=rng.randint(1, 3), user=rng.random() < .3), s=s)
            if i % 4 == 0:
                a, b = rng.sample([x for x in gen.LIB + gen.USER if ref.group(x).d <= 4 and not ref.group(x).complex], 2)
                r = [ref.group(a), ref.group(b)]
                if build.group(r[0]) != build.group(r[1]) and str(build.group(r[0])) != str(build.group(r[1])):
                    yield dict(k='mixed', g=a, h=b, e=gen.rep(rng, r, 60, depth=rng.randint(1, 3)), s=s)


def atomic(rng, Gs, maxn, user):
    """a (nested) sum of simple summands with repetitions"""
    for _ in range(200):
        pool = [gen._atom(rng, Gs, max(maxn // 3, 2), user) for _ in range(rng.randint(1, 4))]
        e = nest(rng, [rng.choice(pool) for _ in range(rng.randint(2, 8))], rng.randint(0, 2))
        if 1 <= ref.size(e, Gs) <= maxn:
            return e
    return ('+', (('V', 0), ('S',)))


def nest(rng, xs, depth):
    xs = list(xs)
    if len(xs) > 2 and depth and rng.random() < .6:
        k = rng.randint(1, len(xs) - 1)
        a, b = nest(rng, xs[:k], depth - 1), nest(rng, xs[k:], depth - 1)
        return ('+', (a, b))
    out = []
    for x in xs:
        out.append(('n', rng.randint(2, 3), x) if rng.random() < .15 else x)
    return ('+', tuple(out)) if len(out) > 1 else out[0]


def summands(e, Gs, at=0):
    """the summands of nested sums with their positions"""
    if e[0] == '+':
        out = []
        for x in e[1]:
            out += summands(x, Gs, at)
            at += ref.size(x, Gs)
        return out
    if e[0] == 'n':
        s = ref.size(e[2], Gs)
        return [t for i in range(e[1]) for t in summands(e[2], Gs, at + i * s)]
    if e[0] == 'int':
        return [(('S',), at + i) for i in range(e[1])]
    return [(e, at)]


def shuffled(e, rng, Gs):
    xs = [x for x, _ in summands(e, Gs)]
    rng.shuffle(xs)
    out, i = [], 0
    while i < len(xs):    # runs of the same summand as multiples
        j = i
        while j < len(xs) and xs[j] == xs[i] and rng.random() < .7:
            j += 1
        out.append(('n', j - i, xs[i]) if j > i + 1 else xs[i])
        i = max(j, i + 1)
    e = ('+', tuple(out)) if len(out) > 1 else out[0]
    if len(out) > 2 and rng.random() < .4:
        k = rng.randint(1, len(out) - 1)
        l = lambda z: ('+', tuple(z)) if len(z) > 1 else z[0]
        e = ('+', (l(out[:k]), l(out[k:])))
    return e


def matrix(rep, gl, n):
    return build.dense(rep.rho_dense(gl)) * np.ones((n, n))


def run(case, mon):
    from emlp.reps import Rep
    from emlp.reps.product_sum_reps import SumRep
    rgs = [ref.group(case['g'])] + ([ref.group(case['h'])] if case['k'] == 'mixed' else [])
    Gs = [build.group(r) for r in rgs]
    rng = np.random.RandomState(case['s'])
    prng = gen.case_rng('c19', case['s'])
    e = ref.tup(case['e'])
    r = build.rep(e, Gs)
    if isinstance(r, int):
        return
    n = ref.size(e, rgs)
    name = f"{'*'.join([case['g']] + ([case['h']] if len(rgs) > 1 else []))}: {ref.show(e)}"
    g = ref.elems(rgs, rng, .7)
    gl = build.elem(g, Gs, rgs)
    R = ref.rho(e, g)
    x = rng.randn(n)
    tol = 1e-4 * c03.cond(g) ** 2 * (1 + c03.degree(e))
    canonical(r, n, R, gl, x, tol, mon, name)
    if not isinstance(r, SumRep):
        return
    split(r, n, R, gl, x, tol, rng, mon, name)
    mon.check(len(r) == len(list(r)), 'iter', f"{name}: {len(list(r))} summands, length {len(r)}")
    mon.check(sum(t.size() for t in r) == n, 'iter', f"{name}: the summands add up to {sum(t.size() for t in r)}")
    if len(r.as_dict(np.zeros(n))) > 1:
        mon.seen('nontrivial', name)
    if case['k'] == 'atoms':
        located(r, e, rgs, Gs, rng, mon, name)
    if case['k'] == 'atoms' or summands(e, rgs) != [(e, 0)]:
        c, perm = r.canonicalize()
        for _ in range(2):
            f = shuffled(e, prng, rgs)
            q = build.rep(f, Gs)
            if not isinstance(q, Rep):
                continue
            mon.count('equivalent sums')
            d, perm2 = q.canonicalize()
            what = f"{name}: equivalent to {ref.show(f)}"
            mon.check(c == d, 'same', f"{what}: the canonical forms {c} and {d} differ")
            mon.check(hash(c) == hash(d), 'same', f"{what}: hashes of the canonical forms {c} and {d} differ")
            mon.check(str(c) == str(d), 'same', f"{what}: canonical forms {c} and {d}")
            mon.err(np.abs(matrix(c, gl, n) - matrix(d, gl, n)).max(initial=0) / max(1, np.abs(R).max()), tol, 'same', f"{what}: the canonical forms have different matrices")
            mon.check([(str(t), k) for t, k in c.reps.items()] == [(str(t), k) for t, k in d.reps.items()] if isinstance(c, SumRep) else True, 'same', f"{what}: types in another order")
            # the same canonical vector after moving the summands: split both
            y = x_of(e, f, x, rgs)
            if y is not None and isinstance(q, SumRep):
                A, B = r.as_dict(x), q.as_dict(y)
                mon.check(set(A) == set(B), 'same', f"{what}: split into different types")
                for t in A:
                    a, b = np.asarray(A[t]), np.asarray(B[t])
                    mon.check(a.shape == b.shape and np.allclose(np.sort(a.sum(-1) * 1.), np.sort(b.sum(-1))), 'same', f"{what}: components of type {t} differ")


def x_of(e, f, x, rgs):
    """the coordinates of x (of e) as a vector of f, whose summands are those of e in another order"""
    pos = {}
    for t, at in summands(e, rgs):
        pos.setdefault(t, []).append(at)
    out = []
    for t, at in summands(f, rgs):
        if not pos.get(t):
            return None
        s = pos[t].pop(0)
        out.append(x[s:s + ref.size(t, rgs)])
    return np.concatenate(out)


def canonical(r, n, R, gl, x, tol, mon, name):
    mon.count('canonical forms')
    c, perm = r.canonicalize()
    perm = np.asarray(perm)
    mon.check(c.size() == n, 'canonical:size', f"{name}: the canonical form {c} has size {c.size()} instead of {n}")
    mon.check(sorted(perm.tolist()) == list(range(n)), 'canonical:permutation', f"{name}: {perm.tolist()} is no permutation")
    M = matrix(c, gl, n)
    mon.count('actions compared')
    mon.err(np.abs(M @ x[perm] - (R @ x)[perm]).max(initial=0) / max(1, np.abs(R).max()), tol, 'canonical:action', f"{name}: the reordered vector does not transform by the canonical form {c}")
    mon.err(np.abs(M - R[perm][:, perm]).max(initial=0) / max(1, np.abs(R).max()), tol, 'canonical:action', f"{name}: the canonical form {c} has other matrices")
    d, again = c.canonicalize()
    mon.check(np.asarray(again).tolist() == list(range(n)), 'canonical:idempotent', f"{name}: canonicalizing the canonical form {c} reorders by {np.asarray(again).tolist()}")
    mon.check(d == c and str(d) == str(c) and hash(d) == hash(c), 'canonical:idempotent', f"{name}: canonicalizing the canonical form {c} gives {d}")
    e, p2 = r.canonicalize()
    mon.check(e == c and np.array_equal(p2, perm), 'canonical:deterministic', f"{name}: canonicalizing again gives {e}")


def split(r, n, R, gl, x, tol, rng, mon, name):
    import jax.numpy as jnp
    ids = r.as_dict(np.arange(n))
    mon.count('splits')
    flat = np.concatenate([np.asarray(v).reshape(-1) for v in ids.values()]) if ids else np.zeros(0)
    mon.check(sorted(flat.tolist()) == list(range(n)), 'split:once', f"{name}: the coordinates in the parts are {sorted(flat.tolist())}")
    total = 0
    for t, v in ids.items():
        mon.check(v.ndim == 2 and v.shape[1] == t.size(), 'split:shape', f"{name}: components of {t} of shape {v.shape}")
        mult = sum(1 for u in r if u == t)
        mon.check(v.shape[0] == mult, 'split:shape', f"{name}: {v.shape[0]} components of {t}, which occurs {mult} times")
        total += v.shape[0]
    mon.check(total == len(r), 'split:shape', f"{name}: {total} components, length {len(r)}")
    for shape, dt in [((), np.float64), ((3,), np.float32), ((2, 1, 2), np.complex64), ((0,), np.float32), ((1,), np.int64)]:
        v = rng.randn(*shape, n)
        v = (v * 50).astype(dt) if dt == np.int64 else v.astype(dt) + (1j * rng.randn(*shape, n) if dt == np.complex64 else 0)
        v = v.astype(dt)
        keep = v.copy()
        A = r.as_dict(jnp.asarray(v) if rng.rand() < .5 and dt != np.float64 else v)
        mon.count('splits')
        mon.check(set(A) == set(ids), 'split:types', f"{name}: batches of shape {shape} split into other types")
        for t, a in A.items():
            mon.check(tuple(a.shape) == shape + ids[t].shape, 'split:shape', f"{name}: {t} of a batch of shape {shape} has shape {a.shape}")
            mon.check(np.array_equal(np.asarray(a), keep[..., np.asarray(ids[t])]), 'split:batch', f"{name}: {t} of a batch of shape {shape}, {np.dtype(dt)}, are other coordinates")
        mon.check(np.array_equal(keep, v), 'split:modified', f"{name}: splitting changed the vector")
    # each component transforms by its own type
    A, B = r.as_dict(x), r.as_dict(R @ x)
    for t in A:
        mon.count('actions compared')
        M = matrix(t, gl, t.size())
        mon.err(np.abs(np.asarray(B[t]) - np.asarray(A[t]) @ M.T).max(initial=0) / max(1, np.abs(R).max()), tol, 'split:action', f"{name}: the components of {t} do not transform by it")
    # and reassembling
    back = np.full(n, np.nan)
    for t in A:
        back[np.asarray(ids[t])] = A[t]
    mon.check(np.array_equal(back, x), 'split:reassemble', f"{name}: reassembling gives another vector")


def located(r, e, rgs, Gs, rng, mon, name):
    """where the summands written are found: the vector which marks one summand splits into one component"""
    n = ref.size(e, rgs)
    x = np.arange(1., n + 1)
    A = {t: np.asarray(a) for t, a in r.as_dict(x).items()}
    for t, at in summands(e, rgs):
        s = ref.size(t, rgs)
        want = set(range(at + 1, at + s + 1))
        hits = [(u, j) for u, a in A.items() for j in range(a.shape[0]) if set(a[j].astype(int).tolist()) & want]
        mon.count('summands located')
        mon.check(len(hits) == 1, 'located', f"{name}: the summand {ref.show(t)} at {at} is spread over {[(str(u), j) for u, j in hits]}")
        u, j = hits[0]
        mon.check(set(A[u][j].astype(int).tolist()) == want, 'located', f"{name}: the component of {u} which has the summand {ref.show(t)} at {at} is {A[u][j]}")
