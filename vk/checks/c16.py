"""C16: groups given only by generators, in any form, and representations given only by their matrices work like built-in ones."""
TECHNIQUE = 'runtime monitoring: generated user classes (forms, containers and bases of the generators; representations by rho alone) under membership, generation, null-space, matrix and equivariance oracles'
NOTE = ('Held on the executions explored: known groups and generated ones presented in generated forms (other generators, redundant ones, conjugated, dense, integer, lazy or mixed, as attributes or in '
        'the constructor), user defined representations and their composites; compared with independent float64 definitions of the same group.')
import math
import numpy as np
from scipy.linalg import expm
from .. import ref, gen, build
from ..core import Inconclusive
from . import c02, c03, c07, c10, nets

RULE = ("a case is a group in a form of its own (generators, basis, container, place of definition), some representations (also user defined), and the monitors of the "
        "generators, flags, samples, bases, matrices, linear layers and networks; nontrivial if the form differs from the built-in one; distinct by group and form")
ASSUMPTIONS = ["the names of user classes are distinct: groups of equal name and arguments are the same group to the library",
               "a flag is not judged where the orthogonality of the generators is within float32 rounding of the library's threshold",
               "bases are judged where the constraints are well-conditioned (as in C02)"]
NEED = {'groups': 20, 'lazy groups': 4, 'attribute groups': 4, 'samples checked': 2000, 'bases': 80, 'matrices compared': 80, 'user reps': 30, 'networks': 5, 'linear layers': 8,
        'distinct nontrivial': 30, 'groups generated by samples': 4, 'flags judged': 30}
QUICK_S = 38
BASE = ["SO(2)", "SO(3)", "SO(4)", "O(2)", "O(3)", "C(3)", "C(4)", "C(5)", "D(3)", "D(4)", "D(6)", "Z(3)", "Z(4)", "Z(5)", "S(3)", "S(4)", "S(5)", "SL(2)", "SL(3)", "GL(2)", "Sp(1)", "Sp(2)", "Scaling(2)", "Scaling(3)",
        "SO13p()", "SO13()", "O13()", "SO11p()", "O11()", "SO2eR3()", "O2eR3()", "DkeR3(3)", "DkeR3(4)", "Cube()", "U(1)", "U(2)", "SU(2)", "ZksZnxZn(2,2)", "Trivial(2)", "Embed(S(3),4,1,4)",
        "Alt(4)", "Heis()", "Aff(2)", "Q8()", "Signed(3)", "Roots(3)", "Roots(4)", "Prod(SO(2),Z(2))", "Prod(D(3),C(2))"]

SMALL = ["C(90)", "C(200)", "Small(SO(3),.02)", "Small(SO(2),.01)", "Small(SO(3),.01)", "Small(O(3),.03)", "Small(SL(2),.03)", "Small(SO(4),.02,2)", "Small(SO(2),.02)"]


def cases(tier, seed):
    rng = gen.case_rng('c16', seed)
    groups = list(BASE)
    i = 0
    while True:
        rng.shuffle(groups)
        for g in groups:
            i += 1
            if i % 4 == 1:
                yield dict(k='flags', s=rng.randrange(10 ** 6))
            yield dict(k='group', g=g, s=rng.randrange(10 ** 6), m=rng.choice([20, 60] if tier == 'quick' else [20, 60, 120]))
            if i % 3 == 0:
                yield dict(k='reps', g=rng.choice(BASE + ["SO(2)"] * 4 if i % 6 else SMALL), s=rng.randrange(10 ** 6))


# ---------------------------------------------------------------- groups in other forms
def transformed(R, rng, pr):
    """the same group with other generators and in another basis: (RG, P, description)"""
    d = R.d
    alg, gens = [np.array(a) for a in R.algebra], [np.array(h) for h in R.gens]
    what = []
    k = len(alg)
    if k and rng.rand() < .6:
        while True:
            M = rng.randn(k, k)
            if np.linalg.cond(M) < 20:
                break
        if rng.rand() < .3:
            M = np.round(M * 2) if np.linalg.cond(np.round(M * 2)) < 30 else M
        alg = [sum(M[i, j] * alg[j] for j in range(k)) for i in range(k)]
        what.append('algebra recombined')
    if k and rng.rand() < .3:
        alg.append(sum(rng.randn() * a for a in alg))
        if rng.rand() < .4:
            alg.append(np.zeros_like(alg[0]))
        what.append('algebra redundant')
    if k and rng.rand() < .3:
        alg = [alg[i] for i in rng.permutation(len(alg))]
    if len(gens) > 1 and rng.rand() < .5:
        for _ in range(3):
            i, j = rng.choice(len(gens), 2, replace=False)
            gens[i] = gens[i] @ (gens[j] if rng.rand() < .5 else np.linalg.inv(gens[j]))
        what.append('generators multiplied')
    if gens and rng.rand() < .3:
        gens = [np.linalg.inv(h) for h in gens]
        what.append('generators inverted')
    if gens and rng.rand() < .25:
        gens.append(gens[rng.randint(len(gens))] @ gens[rng.randint(len(gens))])
        if rng.rand() < .4:
            gens.append(np.eye(d))
        what.append('generators redundant')
    if gens and alg and rng.rand() < .4 and R.compact:
        z = sum(rng.randn() * a for a in alg)
        n = np.linalg.norm(z, 2)
        if n > 1e-9:
            gens[0] = gens[0] @ expm(z / n)
            what.append('generator moved within its component')
    P = np.eye(d)
    basis = rng.choice(['none', 'none', 'permuted', 'rotated', 'oblique', 'unitary' if d <= 3 and rng.rand() < .5 else 'none'])
    if basis == 'permuted':
        P = np.eye(d)[rng.permutation(d)]
    elif basis == 'rotated':
        P = np.linalg.qr(rng.randn(d, d))[0]
    elif basis == 'oblique':
        while True:
            P = rng.randn(d, d)
            if np.linalg.cond(P) < 4:
                break
    elif basis == 'unitary':
        P = np.linalg.qr(rng.randn(d, d) + 1j * rng.randn(d, d))[0]
    Pi = np.linalg.inv(P)
    if basis != 'none':
        what.append('basis ' + basis)
        alg, gens = [P @ a @ Pi for a in alg], [P @ h @ Pi for h in gens]
        if basis == 'permuted':
            snap = lambda m: np.where(np.abs(m - np.round(m)) < 1e-12, np.round(m), m)
            alg, gens = [snap(a) for a in alg], [snap(h) for h in gens]
    back = (lambda f: (lambda g: f(fit(Pi @ g @ P, R)))) if basis != 'none' else (lambda f: f)
    orth = all(np.abs(a.T + a).max() < 1e-9 for a in alg) and all(np.abs(h.T @ h - np.eye(d)).max() < 1e-9 for h in gens)
    perm = orth and not len(alg) and all(np.abs(ref._perm_res(h)) < 1e-9 for h in gens) if not any(np.iscomplexobj(h) for h in gens) else False
    H = ref.RG(R.name, d, alg, gens, member=back(R.member) if R.member else None, orth=orth, perm=perm, compact=R.compact, order=R.order,
               label=back(R.label) if R.label and R.labels else None, labels=R.labels)
    return H, P, what


def fit(g, R):
    return g if R.complex else np.real(g)


counter = [0]


def lazy(m, rng):
    """a LinearOperator with matrix m"""
    import jax.numpy as jnp
    from emlp.reps.linear_operators import LazyPerm, LazyDirectSum, lazify
    cx = np.iscomplexobj(m)
    dt = np.complex64 if cx else np.float32
    if not cx and ref._perm_res(m) < 1e-12 and rng.rand() < .8:
        return LazyPerm(np.asarray(m.argmax(1)))
    L = lambda x: lazify(jnp.asarray(x.astype(dt)))
    r = rng.randint(3)
    if r == 0 or not cx and ref._perm_res(m) < 1e-12:
        return L(m)
    if r == 1:
        a = rng.randn(*m.shape) * np.abs(m).max(initial=0) * .5
        return L(m - a) + L(a)
    Q = np.linalg.qr(rng.randn(*m.shape))[0]
    return L(Q) @ L(Q.T @ m)


def define(H, rng):
    """a user class with the generators of H: (group, description)"""
    from emlp.groups import Group
    import jax.numpy as jnp
    counter[0] += 1
    how = []

    def box(xs, what):
        if not xs:
            return None
        cx = any(np.iscomplexobj(x) for x in xs)
        whole = not cx and all(np.abs(x - np.round(x)).max() < 1e-12 for x in xs)
        kind = rng.choice(['array', 'array', 'float32', 'jax', 'list', 'lazy', 'lazy', 'mixed', 'int' if whole else 'array'])
        how.append(f"{what} {kind}")
        if kind == 'array': return np.stack(xs)
        if kind == 'float32': return np.stack(xs).astype(np.complex64 if cx else np.float32)
        if kind == 'jax': return jnp.asarray(np.stack(xs).astype(np.complex64 if cx else np.float32))
        if kind == 'int': return np.round(np.stack(xs)).astype(int)
        if kind == 'list': return [np.array(x) for x in xs]
        if kind == 'lazy': return [lazy(x, rng) for x in xs]
        return [lazy(x, rng) if i % 2 else np.array(x) for i, x in enumerate(xs)]
    alg, gens = box(H.algebra, 'algebra'), box(H.gens, 'generators')
    place = rng.choice(['attribute', 'constructor', 'arguments'])
    how.append(place)
    body = {}
    given = {}
    if alg is not None: given['lie_algebra'] = alg
    if gens is not None: given['discrete_generators'] = gens
    if not given or rng.rand() < .25:
        given['d'] = H.d
        how.append('d given')
    if H.orth and rng.rand() < .15:
        given['is_orthogonal'] = True
        how.append('is_orthogonal given')
        if not H.perm:   # a flag given as true says nothing about permutations
            pass
    if H.perm and rng.rand() < .15:
        given['is_permutation'] = True
        how.append('is_permutation given')
    name = f"User{counter[0]}_{rng.randint(10 ** 6)}"
    if place == 'attribute':
        cls = type(name, (Group,), dict(given))
        return cls(), how

    def init(self, *args):
        for k, v in given.items():
            setattr(self, k, v)
        Group.__init__(self, *args)
    cls = type(name, (Group,), {'__init__': init})
    return (cls() if place == 'constructor' else cls(3, 'x')), how


def flags(case, rng, mon):
    """flags, dimension and sampling of groups with generators of all kinds (only some of a group may spoil a property)"""
    for _ in range(10):
        d = rng.randint(1, 5)

        def element():
            p = np.eye(d)[rng.permutation(d)]
            k = rng.randint(9)
            if k < 3: return p                                                    # permutation
            if k == 3: return p * rng.choice([-1., 1.], d)                        # signed permutation
            if k == 4: return np.linalg.qr(rng.randn(d, d))[0] if d > 1 else p    # orthogonal
            if k == 5: return p + np.triu(rng.choice([0., 1.], (d, d)), 1) * (p == np.eye(d)).all()   # unipotent with entries 0, 1
            if k == 6: return p * rng.choice([1., 2.], d)                         # monomial
            if k == 8: return p + rng.choice([.01, .03, .1]) * rng.randn(d, d)   # almost orthogonal
            return np.where(np.eye(d) > 0, 1., 0.) if d < 2 else np.tril(np.ones((d, d))) @ p   # 0/1 matrix with rows of several ones
        gens = [element() for _ in range(rng.randint(1, 4))]
        if rng.rand() < .5:
            gens = [np.eye(d)[rng.permutation(d)] for _ in gens[1:]] + gens[:1]   # one generator differs from the others
        alg = []
        if rng.rand() < .45:
            A = rng.randn(d, d)
            alg = [rng.choice([.01, .05, 1, 5]) * (A - A.T if rng.rand() < .5 else A + A.T if rng.rand() < .3 else A)]
            if rng.rand() < .3: alg = [np.zeros((d, d))] + alg
            if rng.rand() < .7: gens = []
        orth = all(np.abs(a.T + a).max() < 1e-9 for a in alg) and all(np.abs(h.T @ h - np.eye(d)).max() < 1e-9 for h in gens)
        perm = orth and not alg and all(np.abs(ref._perm_res(h)) < 1e-9 for h in gens)
        H = ref.RG('flags', d, alg, gens, orth=orth, perm=perm)
        if borderline(H) or not orth and all(np.abs(a.T + a).max() < 1e-3 for a in alg) and all(np.abs(h.T @ h - np.eye(d)).max() < 1e-3 for h in gens):
            continue
        G, how = define(H, rng)
        mon.count('flags judged')
        name = f"{how}, generators {[h.tolist() for h in gens]}, algebra {[a.tolist() for a in alg]}"
        mon.check(int(G.d) == d, 'dimension', f"{name}: d is {G.d} instead of {d}")
        mon.check(bool(G.is_orthogonal) == orth, 'flag', f"{name}: is_orthogonal is {G.is_orthogonal}")
        mon.check(bool(G.is_permutation) == perm, 'flag', f"{name}: is_permutation is {G.is_permutation}")
        V = build.rep(('V', 0), [G])
        mon.check(bool(V.is_permutation) == perm, 'flag', f"{name}: V.is_permutation is {V.is_permutation}")
        if rng.rand() < .75:
            continue
        X = np.asarray(G.samples(4))
        mon.check(X.shape == (4, d, d), 'samples:shape', f"{name}: samples of shape {X.shape}")
        if orth:
            mon.err(np.abs(np.einsum('nij,nik->njk', X, X) - np.eye(d)).max(), 5e-4, 'samples', f"{name}: a sample is not orthogonal")
        if perm:
            mon.err(max(abs(ref._perm_res(np.round(x, 3))) for x in X.astype(float)), 5e-3, 'samples', f"{name}: a sample is not a permutation")


def wrap(H, G, rng):
    import emlp.groups as gr
    other = ref.group(rng.choice(["Z(2)", "SO(2)", "S(3)", "C(3)", "Scaling(2)"]))
    O = build.group(other)
    k = rng.randint(3)
    if k == 0:
        lo, d = rng.randint(0, 3), H.d + 2
        return ref.Embed(H, d, lo, lo + H.d), gr.Embed(G, d, slice(lo, lo + H.d)), f"embedded at {lo} in {d} dimensions"
    if k == 1:
        return ref.Prod(H, other), G * O, f"times {other.name}"
    return ref.Prod(other, H), O * G, f"after {other.name}"


def borderline(H):
    """whether float32 rounding of the generators comes near the threshold of the orthogonality test"""
    d = H.d
    worst = 0.
    for x in H.gens:
        y = x.astype(np.complex64 if np.iscomplexobj(x) else np.float32).astype(complex)
        worst = max(worst, np.abs(y.T @ y - np.eye(d)).max())
    return H.orth and worst > 2.5e-7


def run(case, mon):
    rng = np.random.RandomState(case['s'])
    prng = gen.case_rng('c16', case['s'])
    if case['k'] == 'flags':
        return flags(case, rng, mon)
    R = ref.group(case['g'])
    if case['k'] == 'reps':
        return reps(case, R, rng, prng, mon)
    H, P, what = transformed(R, rng, prng)
    G, how = define(H, rng)
    name = f"{case['g']} ({', '.join(what + how)})"
    wrapped = rng.rand() < .25 and H.d <= 3
    if wrapped:
        H, G, w = wrap(H, G, rng)
        how, name = how + [w], f"{name}, {w}"
        mon.count('user groups embedded or multiplied')
    mon.count('groups')
    if any('lazy' in h or 'mixed' in h for h in how): mon.count('lazy groups')
    if 'attribute' in how: mon.count('attribute groups')
    d = H.d
    mon.check(int(G.d) == d, 'dimension', f"{name}: d is {G.d} instead of {d}")
    if not borderline(H):
        mon.check(bool(G.is_orthogonal) == bool(H.orth), 'flag', f"{name}: is_orthogonal is {G.is_orthogonal}")
        mon.check(bool(G.is_permutation) == bool(H.perm), 'flag', f"{name}: is_permutation is {G.is_permutation}")
    else:
        mon.check(not (G.is_permutation and not H.perm), 'flag', f"{name}: is_permutation is {G.is_permutation}")
    for attr, xs in (('lie_algebra', H.algebra), ('discrete_generators', H.gens)):
        got = [build.dense(x @ np.eye(d, dtype=np.float32)) for x in getattr(G, attr)]
        mon.check(len(got) == len(xs), 'generators', f"{name}: {len(got)} of {len(xs)} generators in {attr}")
        for a, b in zip(got, xs) if not wrapped else ():
            mon.close(a, b, 2e-5 * max(1., np.abs(b).max()), 'generators', f"{name}: {attr}")
    mon.check(G.num_constraints() == len(H.algebra) + len(H.gens), 'generators', f"{name}: num_constraints() is {G.num_constraints()}")
    sampled(H, G, name, mon, rng)
    rg, lg = [H], [G]
    # representations: built-in and user defined, and composites
    todo = [(('V', 0), False), (('T', 1, 1, 0), True), (('T', 2, 0, 0), False)]
    for _ in range(3):
        todo.append((gen.rep(prng, rg, case['m'], depth=prng.randint(0, 2), user=rng.rand() < .4), rng.rand() < .5))
    for e, deferred in todo:
        if ref.size(e, rg) > 130:
            continue
        if any(a[0] == 'psi' for a in gen.atoms(e)):
            continue
        r = build.rep(e, lg, deferred)
        if isinstance(r, int):
            continue
        users = any(a[0] in ('P', 'P2', 'Q') for a in gen.atoms(e))
        try:
            if not (users and H.complex):
                c03.compare(r, e, rg, lg, mon, 'matrix', rng, nel=1, where=name)
                c02.judge(r, e, rg, mon, 'basis', rng, name)
                mon.count('bases')
                if users: mon.count('user reps')
        except Inconclusive:
            mon.count('ill-conditioned bases skipped')
    if not wrapped:
        same_maps(case, R, H, G, P, prng, mon, name)
    if what or 'attribute' in how:
        mon.seen('nontrivial', name)
    if not H.complex and d <= 5:
        layers(case, H, G, rng, prng, mon, name)


def same_maps(case, R, H, G, P, prng, mon, name):
    """the projector of the built-in group, carried to the other basis, is that of the user's group"""
    B = build.group(R)
    for e in [('V', 0), ('T', 1, 1, 0), gen.rep(prng, [R], 40, depth=1)]:
        n = ref.size(e, [R])
        if n > 80:
            continue
        N, gap, top = ref.invariants(e, [R])
        N2, gap2, top2 = ref.invariants(e, [H])
        if any(g is not None and g < 1e-2 * max(t, 1) for g, t in ((gap, top), (gap2, top2))):
            continue
        Q1 = build.dense(build.rep(e, [B]).equivariant_projector())
        Q2 = build.dense(build.rep(e, [G]).equivariant_projector())
        T = ref.rho(e, {0: P})
        X = T @ Q1
        mon.count('built-in projectors compared')
        mon.err(np.abs(Q2 @ X - X).max(initial=0) / max(1, np.abs(X).max(initial=0)), 1e-3, 'same', f"{name}: an equivariant map of the built-in group is not one of the user's, {ref.show(e)}")
        mon.check(int(round(np.trace(Q1).real)) == int(round(np.trace(Q2).real)), 'same', f"{name}: other numbers of equivariant maps, {ref.show(e)}")


def sampled(H, G, name, mon, rng):
    d = H.d
    X = np.concatenate([np.asarray(G.samples(60))] + [np.asarray(G.samples(30)) for _ in range(3)] + [np.asarray(G.sample())[None]])
    mon.check(X.shape == (151, d, d), 'samples:shape', f"{name}: samples of shape {X.shape}")
    X = X.astype(complex if H.complex else float)
    mon.check(bool(np.isfinite(X).all()) or not H.compact, 'samples', f"{name}: samples are not finite")
    ok = []
    for g in X:
        if not np.isfinite(g).all() or not np.linalg.cond(g) < 30:
            mon.count('samples skipped (condition number)')
            continue
        c = np.linalg.cond(g)
        ok.append(g)
        mon.count('samples checked')
        if H.member:
            mon.err(H.member(g), 5e-4 * c ** 3, 'samples', f"{name}: a sample is not in the group", g=str(g.tolist()))
    if not H.algebra and not H.gens:
        mon.err(np.abs(X - np.eye(d)).max(), 1e-5, 'samples', f"{name}: samples other than the identity")
        return
    if H.labels and len(H.labels) > 1 and len(ok) > 100:
        have = {H.label(g) for g in ok}
        mon.check(have == set(H.labels), 'samples:components', f"{name}: samples reach the components {have} of {H.labels}")
    if H.order and not H.algebra and H.order <= 400 and H.order > 1:
        gens = []
        for g in ok[:60]:
            if not any(np.abs(g - h).max() < .02 for h in gens):
                gens.append(g)
        snap = snapped(gens, H)
        els = c07.closure(snap, d, H.order + 5) if snap is not None else None
        if snap is not None:
            mon.count('groups generated by samples')
            mon.check(els is not None and len(els) == H.order, 'samples:generate', f"{name}: the samples generate {None if els is None else len(els)} of {H.order} elements")
    if H.algebra and not H.gens and len(ok) > 60:
        c07.directions(H, G, name, mon, ok)


def snapped(gens, H):
    """samples replaced by the exact elements of the finite group"""
    els = c07.closure(H.gens, H.d, H.order + 5)
    if els is None or len(els) != H.order:
        return None
    out = []
    for g in gens:
        D = np.abs(els - g).reshape(len(els), -1).max(1)
        if D.min() > .05:
            return [g]
        out.append(els[int(D.argmin())])
    return out


def layers(case, H, G, rng, prng, mon, name):
    import jax.numpy as jnp
    import emlp.nn as nn
    rg = [H]
    gs = [ref.elems(rg, rng, .8) for _ in range(3)]
    ein, eout = nets.io_rep(prng, H, 10), nets.io_rep(prng, H, 10)
    what = f"{name}: {ref.show(ein)} -> {ref.show(eout)}"
    if rng.rand() < .55:
        try:
            c10.linear(nn, build.rep(ein, [G]), build.rep(eout, [G]), ein, eout, H, rng, gs, mon, what)
        except Inconclusive:
            pass
    else:
        ch = rng.choice(['int', 'rep'])
        net = nn.EMLP(build.rep(ein, [None]), build.rep(eout, [None]), G, ch=int(rng.randint(6, 20)) if ch == 'int' else build.rep(nets.io_rep(prng, H, 12), [None]), num_layers=1)
        mon.count('networks')
        c10.set_params(net, rng, 'normal')
        c10.equivariant(net, lambda g: ref.rho(ein, g), lambda g: ref.rho(eout, g), ref.size(ein, rg), rng, gs, mon, 'network', f"network over {what}")


# ---------------------------------------------------------------- representations by their matrices
def user_types():
    """[(name, size(d), rho(g), drho(A), class, groups it suits)]"""
    import jax
    import jax.numpy as jnp
    from emlp.reps import Rep
    from emlp.reps.linear_operators import LazyKron, densify

    def alt_basis(d):
        cols = []
        for i in range(d):
            for j in range(i):
                m = np.zeros((d, d)); m[i, j] = 1; m[j, i] = -1
                cols.append(m.ravel() / np.sqrt(2))
        return np.array(cols).T.reshape(d * d, -1)

    class U(Rep):
        def __init__(self, G=None): self.G = G
        def __call__(self, G): return type(self)(G)
        def __str__(self): return type(self).__name__

    class Alt2(U):
        def rho(self, M):
            M = M @ jnp.eye(M.shape[0]); B = alt_basis(M.shape[0])
            return B.T @ jnp.kron(M, M) @ B

    class Det(U):
        def size(self): return 1
        def rho(self, M): return jnp.linalg.det(M @ jnp.eye(M.shape[0]))[None, None]

    class Density(U):
        def rho(self, M): return jnp.sqrt(jnp.abs(jnp.linalg.det(M @ jnp.eye(M.shape[0])))) * jnp.eye(1)

    class Adj(U):
        def rho(self, M):
            M = M @ jnp.eye(M.shape[0])
            return jnp.kron(M, jnp.linalg.inv(M).T)

    class LazySquare(U):
        def rho(self, M): return LazyKron([M, M])
        def drho(self, A):
            from emlp.reps.linear_operators import LazyKronsum
            return LazyKronsum([A, A])

    class Both(U):
        def rho(self, M):
            M = M @ jnp.eye(M.shape[0]); Z = jnp.zeros_like(M)
            return jnp.block([[M, Z], [Z, jnp.linalg.inv(M).T]])

    class Conj(U):
        def rho(self, M): return jnp.conj(M @ jnp.eye(M.shape[0]))

    class Skewed(U):
        """the vector in an oblique basis: not orthogonal, whatever the group"""
        def rho(self, M):
            M = M @ jnp.eye(M.shape[0])
            S = jnp.asarray(skew(M.shape[0]))
            return S @ M @ jnp.linalg.inv(S)

    class Cube3(U):
        def rho(self, M):
            M = M @ jnp.eye(M.shape[0])
            return jnp.kron(M, jnp.kron(M, M))

    def skew(d):
        return np.eye(d) + np.triu(np.ones((d, d)), 1)
    S = skew
    I = lambda d: np.eye(d)
    k2 = lambda A: np.kron(A, I(len(A))) + np.kron(I(len(A)), A)
    inv = np.linalg.inv
    Z = lambda A: np.zeros_like(A)
    return [
        ('Alt2', lambda d: d * (d - 1) // 2, lambda g: alt_basis(len(g)).T @ np.kron(g, g) @ alt_basis(len(g)), lambda A: alt_basis(len(A)).T @ k2(A) @ alt_basis(len(A)), Alt2),
        ('Det', lambda d: 1, lambda g: np.linalg.det(g).reshape(1, 1), lambda A: np.trace(A).reshape(1, 1), Det),
        ('Density', lambda d: 1, lambda g: np.sqrt(np.abs(np.linalg.det(g))).reshape(1, 1), lambda A: np.trace(A).reshape(1, 1) / 2, Density),
        ('Adj', lambda d: d * d, lambda g: np.kron(g, inv(g).T), lambda A: np.kron(A, I(len(A))) - np.kron(I(len(A)), A.T), Adj),
        ('LazySquare', lambda d: d * d, lambda g: np.kron(g, g), k2, LazySquare),
        ('Both', lambda d: 2 * d, lambda g: ref.block_diag(g, inv(g).T), lambda A: ref.block_diag(A, -A.T), Both),
        ('Conj', lambda d: d, np.conj, np.conj, Conj),
        ('Skewed', lambda d: d, lambda g: S(len(g)) @ g @ inv(S(len(g))), lambda A: S(len(A)) @ A @ inv(S(len(A))), Skewed),
        ('Cube3', lambda d: d ** 3, lambda g: np.kron(g, np.kron(g, g)), lambda A: np.kron(A, np.eye(len(A) ** 2)) + np.kron(I(len(A)), k2(A)), Cube3),
    ]


_types = []


def types():
    if not _types:
        _types.extend(user_types())
        for name, size, rho, drho, cls in _types:
            ref.USER[name] = (size, rho, drho)
            build.USER[name] = cls
    return _types


def setup(mon):
    types()


def reps(case, R, rng, prng, mon):
    """composites of user defined representations"""
    G = build.group(R)
    names = [t[0] for t in types() if (R.complex or t[0] != 'Conj') and not (R.complex and t[0] == 'Density') and (R.d > 1 or t[0] != 'Alt2')]
    big = {n: ref.USER[n][0](R.d) for n in names}
    names = [n for n in names if big[n] <= 40]
    u = lambda: ('U', prng.choice(names), 0)
    a, b = u(), u()
    if case['g'] in SMALL and 'Skewed' in names and prng.random() < .6:   # not orthogonal, although the group is
        a = ('U', 'Skewed', 0)
    V = ('V', 0)
    todo = [a, ('D', a), ('+', (a, V, a)), ('*', (a, V)), ('>>', a, b), ('>>', V, a), ('*', (a, a)), ('*', (('D', a), b)), ('n', 3, a), ('+', (b, ('S',), ('T', 1, 1, 0), a, b)),
            ('*', (('+', (a, V)), ('+', (V, ('S',))))), ('<<', ('+', (V, a)), b), ('**', a, 2)]
    prng.shuffle(todo)
    done = 0
    for e in todo:
        n = ref.size(e, [R])
        if n > 100 or done >= 5:
            continue
        done += 1
        deferred = prng.random() < .4
        r = build.rep(e, [G], deferred)
        mon.count('user reps')
        what = f"{case['g']}, user defined"
        try:
            if R.algebra or True:
                c03.compare(r, e, [R], [G], mon, 'reps:matrix', rng, nel=1, where=what)
            c02.judge(r, e, [R], mon, 'reps:basis', rng, what)
            mon.count('bases')
        except Inconclusive:
            mon.count('ill-conditioned bases skipped')
    mon.seen('nontrivial', (case['g'], ref.show(a), ref.show(b)))
    if not R.complex and R.d <= 4 and big[a[1]] <= 12:
        import emlp.nn as nn
        e1, e2 = ('+', (a, V, ('S',))), ('+', (V, a))
        gs = [ref.elems([R], rng, .8) for _ in range(3)]
        if rng.rand() < .5:
            net = nn.EMLP(build.rep(e1, [G]), build.rep(e2, [G]), G, ch=build.rep(('+', (a, ('n', 2, V), ('n', 2, ('S',)))), [G]), num_layers=1)
            mon.count('networks')
            c10.set_params(net, rng, 'normal')
            c10.equivariant(net, lambda g: ref.rho(e1, g), lambda g: ref.rho(e2, g), ref.size(e1, [R]), rng, gs, mon, 'network', f"network over {case['g']}: {ref.show(e1)} -> {ref.show(e2)}")
        else:
            try:
                c10.linear(nn, build.rep(e1, [G]), build.rep(e2, [G]), e1, e2, R, rng, gs, mon, f"{case['g']}: {ref.show(e1)} -> {ref.show(e2)}")
            except Inconclusive:
                pass
