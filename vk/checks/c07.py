"""C07: groups are what their names promise: generators, samples, components, flags, equality."""
TECHNIQUE = 'runtime monitoring: membership and coverage monitors on sampled elements, closure and Schreier-Sims oracles on the generators'
NOTE = ('Held on the groups explored (every library class over a range of arguments, random embeddings and products): algebra span, generated finite group, membership of samples, '
        'components/elements/directions reached by samples, flags, equality and hashing, against independent definitions. Reaching is decided on finitely many samples.')
import math
import numpy as np
from .. import ref, gen, build
from ..core import Inconclusive

RULE = ("a case is a group of the library (with arguments), an embedding or a product of such; nontrivial: more than one element; "
        "distinct by group; its generators are compared with the independent definition and its samples are checked for membership and coverage")
ASSUMPTIONS = ["samples are judged in float32: only those with condition number below 50 for equations of high degree",
               "an element, component or direction counts as never reached if it is missing from a number of samples that makes missing it by chance negligible (from its share in a balanced sampler, with a large margin)"]
NEED = {'samples checked': 2000, 'distinct nontrivial': 40, 'equality pairs': 800, 'components reached': 16, 'finite groups covered': 12}
BASE = ["SO(%d)" % n for n in range(1, 8)] + ["O(%d)" % n for n in range(1, 7)] + ["Trivial(%d)" % n for n in (1, 2, 3, 5)] + ["C(%d)" % k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15)] + \
    ["D(%d)" % k for k in (1, 2, 3, 4, 5, 6, 7, 9, 12)] + ["Scaling(%d)" % n for n in (1, 2, 3, 4)] + ["SO13p()", "SO13()", "O13()", "Lorentz()", "SO11p()", "O11()"] + ["Sp(%d)" % m for m in (1, 2, 3, 4)] + \
    ["Z(%d)" % n for n in (1, 2, 3, 4, 5, 6, 7, 8, 12)] + ["S(%d)" % n for n in range(1, 9)] + ["SL(%d)" % n for n in range(1, 6)] + ["GL(%d)" % n for n in range(1, 5)] + ["U(%d)" % n for n in range(1, 5)] + \
    ["SU(%d)" % n for n in range(1, 5)] + ["Cube()", "RubiksCube()"] + ["ZksZnxZn(%d,%d)" % (k, n) for k in (2, 4) for n in (2, 3, 4, 5)] + ["SO2eR3()", "O2eR3()"] + ["DkeR3(%d)" % k for k in (1, 2, 3, 4, 5, 6, 8)]
SLOW = ['S(6)', 'S(7)', 'S(8)', 'ZksZnxZn(4,5)', 'ZksZnxZn(4,4)', 'ZksZnxZn(2,5)', 'Sp(4)', 'SL(5)', 'SO(7)', 'O(6)', 'U(4)', 'SU(4)']
QUICK_S = 50
SMALL = [g for g in BASE if ref.group(g).d <= 6]
DISCRETE = [g for g in SMALL if ref.group(g).d <= 3 and ref.group(g).gens is not None and len(ref.group(g).gens) and not ref.group(g).complex]


def cases(tier, seed):
    rng = gen.case_rng('c07', seed)
    order = [g for g in BASE if g not in SLOW]
    rng.shuffle(order)
    slow = list(SLOW)
    rng.shuffle(slow)
    small = 8 if tier == 'quick' else 24
    yield dict(k='group', g='RubiksCube()', s=0)
    yield dict(k='pairs', s=rng.randrange(10 ** 9))
    for i, g in enumerate(order):
        yield dict(k='group', g=g, s=0)
        if i % 4 == 0:
            yield dict(k='group', g=construct(rng, small), s=rng.randrange(10 ** 9))
        if i % 6 == 1:   # both factors have discrete generators
            yield dict(k='group', g=f"Prod({rng.choice(DISCRETE)},{rng.choice(DISCRETE)})", s=rng.randrange(10 ** 9))
        if i == 20:
            yield dict(k='pairs', s=rng.randrange(10 ** 9))
            yield dict(k='special')
    for g in slow:
        yield dict(k='group', g=g, s=0)
        yield dict(k='group', g=construct(rng, small), s=rng.randrange(10 ** 9))
    while True:
        r = rng.random()
        if r < .15: yield dict(k='pairs', s=rng.randrange(10 ** 9))
        elif r < .4: yield dict(k='group', g=rng.choice(BASE), s=rng.randrange(10 ** 9))
        else: yield dict(k='group', g=construct(rng), s=rng.randrange(10 ** 9))


def construct(rng, limit=24):
    """a random embedding or product"""
    for _ in range(100):
        a, b = rng.choice(SMALL), rng.choice(SMALL)
        A, B = ref.group(a), ref.group(b)
        if rng.random() < .5:
            lo = rng.randint(0, 3); hi = lo + A.d; d = hi + rng.randint(0, 3)
            return f"Embed({a},{d},{lo},{hi})"
        if A.d * B.d <= limit and not (A.complex or B.complex):
            if rng.random() < .2:
                c = rng.choice(SMALL)
                if A.d * B.d * ref.group(c).d <= limit and not ref.group(c).complex:
                    return f"Prod(Prod({a},{b}),{c})"
            return f"Prod({a},{b})"
    return "Prod(SO(2),Z(2))"


def real(vecs):
    v = np.array([np.asarray(x).ravel() for x in vecs])
    return np.concatenate([v.real, v.imag], 1)


def rank(M, tol=1e-4):
    s = np.linalg.svd(M, compute_uv=False)
    return int((s > tol * max(1., s.max())).sum())


def run(case, mon):
    if case['k'] == 'pairs':
        return pairs(case, mon)
    if case['k'] == 'special':
        return special(mon)
    R = ref.group(case['g'])
    judge(R, build.group(R), case['g'], mon, np.random.RandomState(case['s'] % 2 ** 31))


def judge(R, G, name, mon, rng):
    d = R.d
    mon.check(int(G.d) == d, 'dimension', f"{name}.d is {G.d}, its elements are {d} x {d}")
    mon.check(bool(G.is_orthogonal) == bool(R.orth), 'flag', f"{name}.is_orthogonal is {G.is_orthogonal}")
    mon.check(bool(G.is_permutation) == bool(R.perm), 'flag', f"{name}.is_permutation is {G.is_permutation}")
    alg = [build.dense(A @ np.eye(d, dtype=np.float32)) for A in G.lie_algebra]
    gens = [build.dense(h @ np.eye(d, dtype=np.float32)) for h in G.discrete_generators]
    mon.check(G.num_constraints() == len(alg) + len(gens), 'constraints', f"{name}.num_constraints() is {G.num_constraints()}")
    for x in alg + gens:
        mon.check(x.shape == (d, d), 'dimension', f"{name} has a generator of shape {x.shape}")
    # the Lie algebra is exactly the one promised
    ra = len(R.algebra) and rank(real(R.algebra))
    la = len(alg) and rank(real(alg))
    mon.check(la == ra, 'algebra', f"the Lie algebra of {name} has dimension {la}, not {ra}")
    if ra:
        mon.check(rank(np.concatenate([real(alg), real(R.algebra)])) == ra, 'algebra', f"the Lie algebra of {name} is not that of the group")
    for h in gens:
        if R.member:
            mon.err(R.member(h), 1e-4, 'generator', f"a discrete generator of {name} is not an element of the group")
    finite(R, gens, name, mon)
    # labels of the components generated
    if R.labels and not ra:
        pass
    samples(R, G, name, mon, alg, gens)
    if R.order != 1:
        mon.seen('nontrivial', name)


def closure(gens, d, limit):
    """all elements generated (n, d, d), or None if there are more than limit"""
    els = np.eye(d)[None]
    queue = els
    while len(queue):
        cand = np.concatenate([queue @ h for h in gens]) if len(gens) else queue[:0]
        new = []
        for x in cand:
            if np.abs(els - x).max((1, 2)).min() > .02 and not any(np.abs(y - x).max() < .02 for y in new):
                new.append(x)
            if len(els) + len(new) > limit:
                return None
        queue = np.array(new).reshape(-1, d, d)
        els = np.concatenate([els, queue])
    return els


def finite(R, gens, name, mon):
    if R.order is None or R.algebra:
        return
    mon.count('finite groups')
    if R.order <= 400:
        els = closure(gens, R.d, 2 * R.order + 5)
        n = None if els is None else len(els)
        mon.check(n == R.order, 'order', f"the generators of {name} generate {n or 'too many'} elements instead of {R.order}")
        for h in R.gens:
            best = min(np.abs(h - x).max() for x in els)
            mon.err(best, 1e-3, 'elements', f"an element of {name} is not generated")
    elif R.perm:
        from sympy.combinatorics import Permutation, PermutationGroup
        mine = [Permutation([int(i) for i in h.argmax(1)]) for h in gens]
        for h in gens:
            mon.err(ref._perm_res(h), 1e-6, 'generator', f"a generator of {name} is not a permutation")
        P = PermutationGroup(mine)
        mon.check(P.order() == R.order, 'order', f"the generators of {name} generate {P.order()} elements instead of {R.order}")
        for h in R.gens:
            mon.check(P.contains(Permutation([int(i) for i in h.argmax(1)])), 'elements', f"an element of {name} is not generated")


def cond(g):
    return float(np.linalg.cond(g))


def samples(R, G, name, mon, alg, gens):
    d = R.d
    one = np.asarray(G.sample())
    mon.check(one.shape == (d, d), 'shape', f"{name}.sample() has shape {one.shape}")
    N = 60 if d > 20 else 200
    X = np.asarray(G.samples(N))
    mon.check(X.shape == (N, d, d), 'shape', f"{name}.samples({N}) has shape {X.shape}")
    # several calls: the order in which the generators are multiplied is drawn per call
    more = [np.asarray(G.samples(N)) for _ in range(3)]
    X = np.concatenate([one[None]] + [X] + more).astype(complex if R.complex else float)
    mon.check(bool(np.isfinite(X).all()), 'member', f"{name} has samples which are not finite")
    if not R.algebra and not R.gens:
        mon.err(np.abs(X - np.eye(d)).max(), 1e-5, 'member', f"{name} has samples other than the identity")
        return
    ok = []
    for g in X:
        c = cond(g)
        if not c < 50 and not R.compact:
            mon.count('samples skipped (condition number)')
            continue
        ok.append(g)
        mon.count('samples checked')
        if R.member:
            mon.err(R.member(g), 2e-4 * max(1., c) ** 2, 'member', f"a sample of {name} is not an element of the group", g=g.tolist() if d < 8 else None)
    # orthogonality and permutation flags are true of the samples
    if G.is_orthogonal and not R.complex:
        mon.err(max(ref._orth_res(g) for g in X), 1e-3, 'flag:samples', f"{name}.is_orthogonal is set but a sample is not orthogonal")
    if G.is_permutation:
        mon.err(max(ref._perm_res(g) for g in X), 1e-3, 'flag:samples', f"{name}.is_permutation is set but a sample is not a permutation")
    # components
    if R.labels and len(R.labels) > 1 or (R.labels and R.algebra):
        have = {R.label(g) for g in X}
        mon.check(have == set(R.labels), 'components', f"samples of {name} reach the components {have}, not all of {R.labels}")
        mon.count('components reached', len(have))
    # every element of a small finite group
    if R.order and R.order <= 130 and not R.algebra:
        els = closure(R.gens, d, R.order + 1)
        E = els.reshape(len(els), -1)
        missing = set(range(len(E)))
        tries = 0
        Y = X.real
        while True:
            near = np.abs(Y.reshape(len(Y), 1, -1) - E[None]).max(-1) if len(Y) * E.size < 4e6 else \
                np.array([np.abs(y.reshape(1, -1) - E).max(-1) for y in Y])
            missing -= set(np.argmin(near, 1).tolist())
            tries += len(Y)
            if not missing or tries > 60 * R.order + 3000:
                break
            Y = np.asarray(G.samples(500)).astype(float)
        mon.check(not missing, 'reach', f"{len(missing)} of the {R.order} elements of {name} were never sampled in {tries} samples")
        mon.count('finite groups covered')
    # every direction of the Lie algebra: logarithms of the samples near the identity component
    if R.algebra:
        far = max(np.linalg.norm(g - np.eye(d), 2) for g in X)
        mon.check(far > .5, 'spread', f"no sample of {name} is farther than {far:.2g} from the identity")
        directions(R, G, name, mon, ok)


def directions(R, G, name, mon, X):
    from scipy.linalg import logm
    B = real(R.algebra)
    Qb, _ = np.linalg.qr(B.T)
    k = rank(B)
    Qb = np.linalg.svd(B.T, full_matrices=False)[0][:, :k]
    logs = []
    for attempt in range(4):
        for g in X[:400]:
            try:
                L = logm(g, disp=False)[0]
            except Exception:
                continue
            if not R.complex:
                if np.abs(L.imag).max() > 1e-4:
                    continue
                L = L.real
            if not np.isfinite(L).all() or np.linalg.norm(L) < 1e-2:
                continue
            v = real([L])[0]
            if np.linalg.norm(v - Qb @ (Qb.T @ v)) > 2e-3 * np.linalg.norm(v):
                continue
            logs.append(Qb.T @ v / np.linalg.norm(v))
            if len(logs) >= 12 * k + 20:
                break
        if len(logs) >= 12 * k + 20:
            break
        X = list(np.asarray(G.samples(300)).astype(complex if R.complex else float))
    if len(logs) < 4 * k + 8:
        mon.count('too few logarithms to judge directions')
        return
    s = np.linalg.svd(np.array(logs), compute_uv=False)
    mon.count('directions reached', k)
    # both ways along each generator (the inverse of an element is as much in the group as the element)
    B0 = [Qb.T @ b / np.linalg.norm(b) for b in B if np.linalg.norm(b) > 1e-6]   # (users may list zero)
    for i, b in enumerate(B0 if len(logs) >= 30 else []):
        c = np.array(logs) @ b
        mon.check(c.min() < 0 < c.max(), 'directions:sign', f"all {len(c)} samples of {name} judged lie to one side of the identity along generator {i} of its Lie algebra")
    mon.count('directions judged both ways', len(B0))
    mon.check(len(s) >= k and s[k - 1] > .02 * s[0], 'directions', f"samples of {name} vary in {int((s > .02 * s[0]).sum())} of the {k} directions of its Lie algebra")


def pairs(case, mon):
    rng = gen.case_rng('c07', case['s'])
    names = rng.sample(BASE, 24) + [construct(rng) for _ in range(8)]
    for base in rng.sample(["S(3)", "O(2)", "SO(3)", "Z(3)", "SL(2)"], 2):   # places of an embedding
        n = ref.group(base).d
        for lo in range(2):
            names.append(f"Embed({base},{n + 3},{lo},{lo + n})")
            names.append(f"Embed({base},{n + 4},{lo},{lo + n})")
    names += ["ZksZnxZn(2,4)", "ZksZnxZn(4,2)", "ZksZnxZn(2,2)"] + rng.choice([["ZksZnxZn(4,3)", "ZksZnxZn(2,3)"], []])
    names += rng.sample([f"{c}({n})" for c in ("SO", "O", "S", "Z", "SL", "GL", "Trivial", "Scaling", "C", "D", "DkeR3") for n in (2, 3, 4)], 10)
    names = [n for n in dict.fromkeys(names) if n != 'RubiksCube()']
    rg = [ref.group(n) for n in names]
    gs = [build.group(r) for r in rg]
    again = [build.group(r) for r in rg]
    for i in range(len(names)):
        mon.check(gs[i] == again[i] and hash(gs[i]) == hash(again[i]), 'equal', f"{names[i]} built twice is not equal or has different hashes")
        mon.check(not gs[i] < again[i] and not again[i] < gs[i], 'order', f"{names[i]} is smaller than itself")
        for j in range(i):
            mon.count('equality pairs')
            same = identical(rg[i], rg[j])
            eq = bool(gs[i] == gs[j])
            mon.check(eq == bool(gs[j] == gs[i]), 'equal', f"== of {names[i]} and {names[j]} is not symmetric")
            if eq:
                mon.check(hash(gs[i]) == hash(gs[j]), 'equal', f"{names[i]} and {names[j]} are equal but have different hashes")
            if not same:
                mon.check(not eq, 'different', f"{names[i]} and {names[j]} compare equal")
                if names[i].split('(')[0] not in ('Embed', 'Prod') and names[j].split('(')[0] not in ('Embed', 'Prod'):
                    mon.check(bool(gs[i] < gs[j]) != bool(gs[j] < gs[i]), 'order', f"{names[i]} and {names[j]} are not ordered")
    # embeddings by any slice
    import emlp.groups as gr
    S = gr.S
    sl = [slice(0, 3), slice(1, 4), slice(2, 5), slice(0, 6, 2), slice(1, 6, 2), slice(None, 3), slice(-3, None), slice(3, 6)]
    es = [gr.Embed(S(3), 6, s) for s in sl]
    for i, a in enumerate(sl):
        h = [np.asarray(x) for x in es[i].discrete_generators]
        place = list(range(6))[a]
        for x, y in zip(h, S(3).discrete_generators):
            z = np.eye(6); z[np.ix_(place, place)] = build.dense(y @ np.eye(3, dtype=np.float32))
            mon.close(x, z, 1e-6, 'embedding', f"Embed(S(3),6,{a})")
        for j, b in enumerate(sl):
            mon.count('equality pairs')
            mon.check(bool(es[i] == es[j]) == (place == list(range(6))[b]), 'different', f"Embed(S(3),6,{a}) == Embed(S(3),6,{b}) is {es[i] == es[j]}")
        for B in (gr.SO(3), gr.O(3)):   # with a Lie algebra
            E = gr.Embed(B, 6, a)
            for xs, ys, base in ((E.lie_algebra, B.lie_algebra, np.zeros((6, 6))), (E.discrete_generators, B.discrete_generators, np.eye(6))):
                mon.check(len(xs) == len(ys), 'embedding', f"Embed({B},6,{a}) has {len(xs)} generators of a kind, {B} has {len(ys)}")
                for x, y in zip(xs, ys):
                    z = base.copy(); z[np.ix_(place, place)] = build.dense(y @ np.eye(3, dtype=np.float32))
                    mon.close(np.asarray(x), z, 1e-6, 'embedding', f"Embed({B},6,{a})")


def identical(A, B):
    """same set of matrices as far as the generators tell (names may legitimately coincide)"""
    if A.d != B.d or len(A.algebra) != len(B.algebra) or len(A.gens) != len(B.gens):
        return False
    return all(np.allclose(x, y) for x, y in zip(A.algebra + A.gens, B.algebra + B.gens))


def special(mon):
    """user classes with several arguments; the groups that are not exported"""
    import emlp.groups as gr
    from emlp.groups import Group

    class Twice(Group):
        def __init__(self, a, b):
            self.lie_algebra = np.zeros((1, 2, 2)); self.lie_algebra[0, 0, 0] = a; self.lie_algebra[0, 1, 1] = b
            super().__init__(a, b)
    args = [(1, 12), (11, 2), (1, 1), (12, 1), (2, 11), (0, 112), (-1, 12), (1, -12), (1., 12), (112, 0)]
    gs = [Twice(*a) for a in args]
    for i, a in enumerate(args):
        for j, b in enumerate(args):
            mon.count('equality pairs')
            if (repr(a) == repr(b)):
                mon.check(gs[i] == Twice(*b) and hash(gs[i]) == hash(Twice(*b)), 'equal', f"Twice{a} and Twice{b}")
            elif a != b:
                mon.check(not gs[i] == gs[j], 'different', f"user groups with arguments {a} and {b} compare equal")
    for cls, m in ((gr.Parity, np.diag([1., -1, -1, -1])), (gr.TimeReversal, np.diag([-1., 1, 1, 1]))):
        G = cls()
        mon.check(G.d == 4 and bool(G.is_orthogonal) and not bool(G.is_permutation), 'flag', f"{cls.__name__}")
        X = np.asarray(G.samples(100))
        dist = np.minimum(np.abs(X - np.eye(4)).max((1, 2)), np.abs(X - m).max((1, 2)))
        mon.err(dist.max(), 1e-5, 'member', f"a sample of {cls.__name__} is not an element")
        mon.check(len({int(np.sign(np.linalg.det(x))) for x in X}) == 2, 'components', f"samples of {cls.__name__} do not reach both elements")
    # exp is the matrix exponential
    from scipy.linalg import expm
    rng = np.random.RandomState(0)
    for _ in range(5):
        A = rng.randn(3, 3)
        mon.close(np.asarray(gr.SO(3).exp(A)), expm(A), 1e-4, 'exp', 'Group.exp is not the matrix exponential')
