"""C15: labels, statistics and representations of the shipped datasets respect the declared symmetry."""
TECHNIQUE = 'runtime monitoring: reference-model oracle (labels recomputed in float64), metamorphic oracle under independent group elements, orbit membership by canonical form'
NOTE = ('Held on the executions explored: datasets generated under many random states and sizes; labels recomputed from inputs and from transformed inputs; the cube data judged against an independent model of the cube. '
        'Trusts that model and the declared groups of the documentation.')
import numpy as np
from .. import ref, gen, build

RULE = "a case is a generated dataset; distinct by class, size and random state"
ASSUMPTIONS = ["reloading nothing from disk: these datasets are generated when constructed", "float64 arithmetic of numpy in the labels"]
NEED = {'datasets': 60, 'labels recomputed': 2000, 'labels of transformed inputs': 300, 'cube states located': 800, 'scrambled sets': 8, 'statistics judged': 200, 'distinct nontrivial': 40, 'items read': 300}
QUICK_S = 30
PRELOAD = ['torch']


def cases(tier, seed):
    rng = gen.case_rng('c15', seed)
    kinds = ['Inertia', 'O5Synthetic', 'ParticleInteraction', 'InvertedCube', 'Inertia', 'O5Synthetic', 'ParticleInteraction', 'BrokenRubiksCube']
    i = 0
    while True:
        i += 1
        d = kinds[(i + i // 8) % 8]
        s = rng.randrange(10 ** 6)
        if 'Cube' in d:
            yield dict(d=d, train=bool((i // 8) % 3 == 0), s=s)
        else:
            c = dict(d=d, n=rng.choice([1, 2, 3, 10, 50, 200] + ([1024, 4000] if tier == 'thorough' else [])), s=s)
            if d == 'Inertia':
                c['k'] = rng.choice([5, 1, 2, 3, 5, 8])
            yield c


def run(case, mon):
    rng = np.random.RandomState(np.random.randint(2 ** 31))
    mon.count('datasets')
    (cube if 'Cube' in case['d'] else tensors)(case, rng, mon)


# ------------------------------------------------------------------- the labels, from the documentation

def inertia(x, k):
    m, r = x[:k], x[k:].reshape(k, 3)
    out = np.zeros((3, 3))
    for mi, ri in zip(m, r):
        out += mi * (ri @ ri * np.eye(3) - np.outer(ri, ri))
    return out.reshape(-1)


def o5(x, k):
    a, b = x[:5], x[5:]
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    return np.array([np.sin(na) - nb ** 3 / 2 + a @ b / (na * nb)])


def particle(x, k):
    p = x.reshape(4, 4)
    eta = np.diag([1., -1, -1, -1])
    dot = lambda a, b: a @ eta @ b
    p1, p2, p3, p4 = p
    up = np.outer(p1, p3) - (dot(p1, p3) - dot(p1, p1)) * eta
    lo = np.outer(eta @ p2, eta @ p4) - (dot(p2, p4) - dot(p2, p2)) * eta
    return np.array([4 * (up * lo).sum()])


LABEL = dict(Inertia=inertia, O5Synthetic=o5, ParticleInteraction=particle)


def magnitude(name, x, k):
    """of the terms summed in the label"""
    if name == 'ParticleInteraction':
        n = np.linalg.norm(x.reshape(4, 4), axis=1)
        m = max(1., n.max())
        return 30 * m ** 4
    if name == 'Inertia':
        return max(1., np.abs(x[:k]).sum() * np.square(x[k:]).sum())
    return max(1., np.linalg.norm(x) ** 3)


def tensors(case, rng, mon):
    import emlp.datasets as ds
    import emlp.reps
    name, n, k = case['d'], case['n'], case.get('k', 5)
    cls = getattr(ds, name)
    d = cls(n, k) if name == 'Inertia' else cls(n)
    V, S = ('V', 0), ('S',)
    g, ein, eout, dim = dict(Inertia=('O(3)', ('+', (('n', k, S), ('n', k, V))), ('T', 2, 0, 0), 4 * k), O5Synthetic=('O(5)', ('n', 2, V), S, 10), ParticleInteraction=('Lorentz()', ('n', 4, V), S, 16))[name]
    rg = ref.group(g)
    X, Y = np.asarray(d.X), np.asarray(d.Y)
    nin, nout = ref.size(ein, [rg]), ref.size(eout, [rg])
    what = f"{name}({n}{', ' + str(k) if name == 'Inertia' else ''})"
    mon.check(X.shape == (n, nin) and Y.shape == (n, nout) and len(d) == n, 'size', f"{what}: inputs {X.shape}, labels {Y.shape}, length {len(d)}; {nin} and {nout} columns expected")
    mon.check(d.dim == dim, 'size', f"{what}: dim {d.dim}")
    mon.check(np.isfinite(X).all() and np.isfinite(Y).all(), 'finite', f"{what}: not finite")
    G = d.symmetry
    mon.check(G == build.group(rg) and G.d == rg.d, 'symmetry', f"{what}: symmetry {G}")
    rin, rout = d.rep_in(G), d.rep_out(G)
    mon.check(rin.size() == nin and rout.size() == nout, 'size', f"{what}: representations of size {rin.size()}, {rout.size()} for inputs {X.shape} and labels {Y.shape}")
    f = LABEL[name]
    for i in range(n) if n <= 200 else rng.choice(n, 200, replace=False):
        mon.count('labels recomputed')
        mon.err(np.abs(Y[i] - f(X[i], k)).max() / magnitude(name, X[i], k), 1e-9, 'label', f"{what}: the label of item {i} is not the function of its input which the documentation describes")
    for i in [0, n - 1] + list(rng.randint(n, size=3)):
        mon.count('items read')
        x, y = d[int(i)]
        mon.check(np.array_equal(x, X[i]) and np.array_equal(y, Y[i]), 'item', f"{what}: item {i} is not its input and label")
    sl = d[0:2]
    mon.check(np.array_equal(sl[0], X[:2]) and np.array_equal(sl[1], Y[:2]), 'item', f"{what}: a slice of items differs")
    # inputs are random: rows and columns are independent
    if n >= 50:
        mon.check(len(np.unique(X.round(9), axis=0)) == n and X.std(0).min() > 1e-3, 'random', f"{what}: the inputs are not random")
        mon.check(np.abs(np.corrcoef(X.T) - np.eye(nin)).max() < (.75 if n < 100 else .5), 'random', f"{what}: components of the inputs are correlated")
    if name == 'Inertia':
        mon.check((X[:, :k] > 0).all(), 'label', f"{what}: a mass is not positive")
        for i in rng.randint(n, size=4):   # an inertia tensor: symmetric, positive, triangle inequality
            I = Y[i].reshape(3, 3)
            w = np.linalg.eigvalsh((I + I.T) / 2)
            mon.check(np.abs(I - I.T).max() < 1e-9 * max(1, np.abs(I).max()) and w[0] > -1e-9 * w[-1] and w[2] <= w[0] + w[1] + 1e-9 * w[2], 'label', f"{what}: not an inertia tensor")
    # transformed inputs: the library's representations and the independent elements
    mu, sg = np.asarray(d.stats[0], float) + np.zeros(nin), np.asarray(d.stats[1], float) + np.zeros(nin)
    mo, so = (np.asarray(d.stats[2], float) + np.zeros(nout), np.asarray(d.stats[3], float) + np.zeros(nout)) if len(d.stats) == 4 else (np.zeros(nout), np.ones(nout))
    mon.check(len(d.stats) in (2, 4), 'stats', f"{what}: {len(d.stats)} statistics")
    if n > 1:
        mon.check((sg > 0).all() and (so > 0).all() and all(np.isfinite(v).all() for v in (mu, sg, mo, so)), 'stats', f"{what}: degenerate statistics")
    for _ in range(6):
        ge = ref.elems([rg], rng)
        A, B = ref.rho(ein, ge), ref.rho(eout, ge)
        mon.close(np.asarray(rin.rho_dense(ge[0].astype(np.float32))), A, 1e-5, 'rep', f"{what}: the input representation is not {ref.show(ein)}")
        mon.close(np.asarray(rout.rho_dense(ge[0].astype(np.float32))), B, 1e-5, 'rep', f"{what}: the output representation is not {ref.show(eout)}")
        i = rng.randint(n)
        mon.count('labels of transformed inputs')
        x = A @ X[i]
        mon.err(np.abs(f(x, k) - B @ Y[i]).max() / magnitude(name, x, k), 1e-9, 'equivariance', f"{what}: the label does not transform as declared")
        # the statistics commute with the action
        mon.count('statistics judged')
        sc = max(1., np.abs(A).max())
        mon.err(np.abs(A @ mu - mu).max() / sc, 1e-6 * max(1, np.abs(mu).max()), 'stats', f"{what}: the input mean is not invariant")
        mon.err(np.abs(A * sg[None] - sg[:, None] * A).max() / sc, 1e-6 * max(1e-6, np.abs(sg).max()), 'stats', f"{what}: the input scale does not commute with the action")
        mon.err(np.abs(B @ mo - mo).max() / max(1, np.abs(B).max()), 1e-6 * max(1, np.abs(mo).max()), 'stats', f"{what}: the output mean is not invariant")
        mon.err(np.abs(B * so[None] - so[:, None] * B).max() / max(1, np.abs(B).max()), 1e-6 * max(1, np.abs(so).max()), 'stats', f"{what}: the output scale does not commute with the action")
    # the statistics are those of this data, where they are statistics
    if name != 'Inertia' and n > 1:
        mon.close(mo, Y.mean(0), 1e-9, 'stats', f"{what}: the output mean is not that of the labels")
        mon.close(so, Y.std(0), 1e-9, 'stats', f"{what}: the output scale is not that of the labels")
        z = (X - mu) / sg
        mon.check(.3 < np.abs(z).mean() < 3, 'stats', f"{what}: standardized inputs of size {np.abs(z).mean():.3g}")
    mon.seen('nontrivial', (what, case['s']))
    # another dataset of the same kind has other inputs
    other = cls(n, k) if name == 'Inertia' else cls(n)
    mon.check(not np.array_equal(other.X, X), 'random', f"{what}: two datasets have the same inputs")
    mon.check(np.array_equal(np.asarray(d.X), X) and np.array_equal(np.asarray(d.Y), Y), 'item', f"{what}: constructing another dataset changed this one")


# ------------------------------------------------------------------- cubes

_cache = {}


def closure(gens):
    d = gens[0].shape[0]
    todo, seen = [tuple(range(d))], {tuple(range(d))}
    ps = [tuple(np.asarray(g).argmax(1)) for g in gens]
    while todo:
        p = todo.pop()
        for q in ps:
            r = tuple(p[j] for j in q)
            if r not in seen:
                seen.add(r)
                todo.append(r)
    return seen


def cube(case, rng, mon):
    import emlp.datasets as ds
    name, train = case['d'], case['train']
    d = getattr(ds, name)(train=train) if rng.rand() < .7 or not train else getattr(ds, name)()
    rub = name == 'BrokenRubiksCube'
    what = f"{name}(train={train})"
    rg = ref.group('RubiksCube()' if rub else 'Cube()')
    X, Y = np.asarray(d.X), np.asarray(d.Y)
    n = {(True, True): 22, (True, False): 440, (False, True): 2, (False, False): 100}[rub, train]
    dim = 6 * rg.d
    mon.check(X.shape == (n, dim) and Y.shape == (n,) and len(d) == n, 'size', f"{what}: inputs {X.shape}, labels {Y.shape}, length {len(d)}")
    mon.check(d.symmetry == build.group(rg) and d.symmetry.d == rg.d, 'symmetry', f"{what}: symmetry {d.symmetry}")
    rin, rout = d.rep_in(d.symmetry), d.rep_out(d.symmetry)
    mon.check(rin.size() == dim and rout.size() == 2, 'size', f"{what}: representations of size {rin.size()}, {rout.size()}")
    mon.check(tuple(np.asarray(s).item() for s in d.stats) == (0, 1), 'stats', f"{what}: statistics {d.stats}")
    mon.count('statistics judged')
    mon.check(set(np.unique(Y)) == {0, 1} and (Y == 1).sum() * 2 == n, 'label', f"{what}: labels {np.unique(Y, return_counts=True)}")
    solved = np.zeros((6, rg.d))
    for i in range(6):
        solved[i, rg.d // 6 * i: rg.d // 6 * (i + 1)] = 1
    for i in rng.randint(n, size=10):
        mon.count('items read')
        x, y = d[int(i)]
        mon.check(np.array_equal(x, X[i]) and y == Y[i], 'item', f"{what}: item {i} is not its input and label")
    states = []
    broken = set()
    for i in range(n):
        mon.count('cube states located')
        s = X[i].reshape(6, rg.d)
        mon.err(np.abs(s - s.round()).max(), 1e-5, 'state', f"{what}: a sticker of item {i} has no colour")
        s = s.round()
        mon.check((s.sum(0) == 1).all() and (s.sum(1) == rg.d // 6).all() and ((s == 0) | (s == 1)).all(), 'state', f"{what}: item {i} is not a colouring with equally many stickers of each colour")
        c = s.argmax(0)
        ok = reachable(c, rub)
        mon.check(ok == bool(Y[i]), 'label', f"{what}: item {i} is {'solvable' if ok else 'not solvable'} but labelled {Y[i]}", state=c.tolist())
        if not ok:
            # the broken states are all the same one, up to the group: colour inversion of it is solvable
            inv = np.array([5, 3, 4, 1, 2, 0])
            mon.check(reachable(inv[c], rub), 'orbit', f"{what}: item {i} is in neither of the two orbits", state=c.tolist())
            broken.add(tuple(c))
        states.append(tuple(c))
    for y in (0, 1):
        k = len({s for s, l in zip(states, Y) if l == y})
        if train:
            mon.check(k == 1, 'orbit', f"{what}: {k} different unscrambled states with label {y}")
        else:
            # 24 states, 50 draws: 18 or more in almost every case; Rubik's words are hardly ever repeated
            mon.check(k >= (100 if rub else 12), 'scramble', f"{what}: only {k} different states with label {y} among {n // 2}")
    if train:
        mon.check(states[int(np.argmax(Y))] == tuple(solved.argmax(0)), 'orbit', f"{what}: the state with label 1 is not the solved one")
    else:
        mon.count('scrambled sets')
        r = np.abs(np.diff(Y.astype(int))).sum()
        mon.check(r > n // 5, 'scramble', f"{what}: the labels are not shuffled ({r} changes)")
        mon.seen('nontrivial', (what, case['s']))


def reachable(c, rub):
    """whether the colouring c of the stickers comes from the solved one by the rotations (Cube) or the turns (Rubik's cube)"""
    if not rub:
        if 'faces' not in _cache:
            _cache['faces'] = closure(ref.group('Cube()').gens)
        return tuple(c) in _cache['faces'] or tuple(np.argsort(c)) in _cache['faces']
    return rubik_solvable(c)


def rubik_solvable(c):
    """solvability of a sticker colouring: every cubie exists once, and permutation and orientation parities vanish"""
    if 'cubies' not in _cache:
        _cache['cubies'] = cubies()
    corners, edges = _cache['cubies']
    perms = []
    for pieces, k in ((corners, 3), (edges, 2)):
        home = {frozenset(s // 8 for s in p): i for i, p in enumerate(pieces)}
        perm, twist = [], 0
        for p in pieces:
            cols = [c[s] for s in p]
            i = home.get(frozenset(cols))
            if i is None or len(set(cols)) < k:
                return False
            ref_cols = [s // 8 for s in pieces[i]]
            # orientation: by how many places the colours are rotated against the reference ordering of the piece
            for t in range(k):
                if [cols[(j + t) % k] for j in range(k)] == ref_cols:
                    twist += t
                    break
            else:
                return False   # mirrored
            perm.append(i)
        if sorted(perm) != list(range(len(pieces))) or twist % k:
            return False
        perms.append(sign(perm))
    return perms[0] == perms[1]


def sign(p):
    s, seen = 1, set()
    for i in range(len(p)):
        j, n = i, 0
        while j not in seen:
            seen.add(j)
            j = p[j]
            n += 1
        if n:
            s *= (-1) ** (n - 1)
    return s


def cubies():
    """corner and edge places as lists of stickers: the one on U or D (for edges else on F or B) first, the others clockwise seen from outside"""
    pos, nrm = ref.rubik_stickers()
    byplace = {}
    for i, p in enumerate(pos):
        byplace.setdefault(tuple(p), []).append(i)
    corners, edges = [], []
    for p, ss in byplace.items():
        ss.sort(key=lambda s: (nrm[s][2] == 0, nrm[s][1] == 0))
        if len(ss) == 3:
            if np.dot(np.cross(nrm[ss[0]], nrm[ss[1]]), nrm[ss[2]]) > 0:   # anticlockwise
                ss = [ss[0], ss[2], ss[1]]
            corners.append(ss)
        else:
            edges.append(ss)
    assert len(corners) == 8 and len(edges) == 12
    return corners, edges
