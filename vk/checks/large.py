"""Maps between sums of many tensors, as wide networks have them: too large for dense matrices, but the maps are blocks of
small ones.  Used by C01, C02, C03 and C09."""
import numpy as np
from .. import ref, gen, build
from ..core import Inconclusive

GROUPS = ["SO(3)", "SO(2)", "O(2)", "O(3)", "S(4)", "S(3)", "Z(4)", "D(4)", "C(4)", "SL(2)", "Sp(1)", "O13()", "SO13p()", "Cube()", "Scaling(2)", "GL(2)", "SO2eR3()", "DkeR3(3)", "Trivial(2)"]


def case(rng, mixed=False):
    g = rng.choice([g for g in GROUPS if not mixed or ref.group(g).d <= 4])
    G = [ref.group(g)]
    more = []
    out = {}
    if mixed:
        out['h'] = h = rng.choice([h for h in GROUPS if h != g and ref.group(h).d * G[0].d <= max(9, 2 * G[0].d)])
        G.append(ref.group(h))
        more = [('V', 1), ('*', (('V', 0), ('V', 1))), ('*', (('V', 1), ('V', 0))), ('D', ('V', 1)), ('T', 2, 0, 1), ('*', (('T', 1, 1, 0), ('V', 1)))]
    m = rng.choice([(60, 150), (150, 320), (150, 320), (250, 400)])

    def side():
        types = [('V', 0), ('V', 0), ('T', 1, 0, 0), ('S',), ('D', ('V', 0)), ('T', 2, 0, 0), ('T', 1, 1, 0), ('T', 0, 2, 0), ('T', 0, 1, 0)] + more
        for _ in range(200):
            terms = tuple(('n', rng.choice([1, 2, 5, 12, 30, 50, 80, 110]), rng.choice(types)) for _ in range(rng.randint(1, 4)))
            if m[0] <= sum(t[1] * ref.size(t[2], G) for t in terms) <= m[1]:
                return terms
        return (('n', m[0], ('V', 0)),)
    return dict(out, k='maps', g=g, i=side(), o=side(), w=rng.choice(['>>', '<<', '*']), s=rng.randrange(10 ** 6))


class Maps:
    def __init__(self, case):
        self.rg = [ref.group(case[k]) for k in 'gh' if k in case]
        G = self.Gs = [build.group(r) for r in self.rg]
        self.ti, self.to = ref.tup(case['i']), ref.tup(case['o'])
        self.ei, self.eo = ('+', self.ti), ('+', self.to)
        self.n, self.m = ref.size(self.ei, self.rg), ref.size(self.eo, self.rg)
        a, b = build.rep(self.ei, G), build.rep(self.eo, G)
        self.r = {'>>': lambda: a >> b, '<<': lambda: b << a, '*': lambda: b * a.T}[case['w']]()
        self.name = f"{'*'.join(r.name for r in self.rg)}: maps {ref.show(self.ei)} -> {ref.show(self.eo)}"

    def act(self, g, W, derivative=False):
        """W: (k, m, n)"""
        f = ref.drho if derivative else ref.rho
        A, B = f(self.ei, g), f(self.eo, g)
        if derivative:
            return B @ W - W @ A
        return B @ W @ np.linalg.inv(A)

    def vecs(self, W):
        return W.reshape(len(W), -1).T.astype(np.complex64 if np.iscomplexobj(W) else np.float32)

    def maps(self, y):
        return np.asarray(build.dense(y)).T.reshape(-1, self.m, self.n)

    def blocks(self):
        """(row offset, copies, size, column offset, copies, size, equivariant maps between the types)"""
        i = 0
        for _, c, t in self.to:
            st = ref.size(t, self.rg)
            j = 0
            for _, d, u in self.ti:
                su = ref.size(u, self.rg)
                N, gap, top = ref.invariants(('*', (t, ('D', u))), self.rg)
                if gap is not None and (gap < 1e-3 or gap < 1e-3 * max(top, 1)):
                    raise Inconclusive('spectral gap below the precision promised')
                yield i, c, st, j, d, su, N
                j += d * su
            i += c * st

    def equivariant(self, rng, k=2):
        """(dimension of the space of equivariant maps, k random ones of norm about the dimension's root)"""
        W = np.zeros((k, self.m, self.n))
        dim = 0
        for i, c, s, j, d, u, N in self.blocks():
            r = N.shape[1]
            dim += c * d * r
            if r:
                b = np.einsum('pcdr,abr->pcadb', rng.randn(k, c, d, r), np.real_if_close(N).reshape(s, u, r))
                W[:, i:i + c * s, j:j + d * u] = b.reshape(k, c * s, d * u)
        return dim, W


def elements(M, rng, k=2):
    for _ in range(k):
        g = {k: r.sample(rng, .7) for k, r in enumerate(M.rg)}
        if cond(g) < 10:
            yield g


def cond(g):
    return float(np.prod([np.linalg.cond(v) for v in g.values()]))


def solutions(case, mon, key='wide'):
    """C01: what basis and projector return is fixed"""
    M = Maps(case)
    rng = np.random.RandomState(case['s'])
    P = M.r.equivariant_projector()
    Q = M.r.equivariant_basis()
    w = rng.randn(2, M.m, M.n)
    got = [('projector', M.maps(P @ M.vecs(w)))]
    got.append(('projector', M.maps((P @ M.vecs(w)[:, 0])[:, None])))
    if Q.shape[1]:
        got.append(('basis', M.maps(Q @ rng.randn(Q.shape[1], 2).astype(np.float32))))
    mon.count('projected vectors', 3)
    mon.count('coordinates of wide maps', M.m * M.n)
    for what, y in got:
        sc = max(np.abs(y).max(initial=0), 1e-2)
        for g in elements(M, rng):
            z = M.act(g, y)
            mon.count('group elements applied')
            c = cond(g) ** 4
            mon.err(np.abs(z - y).max() / sc, 1e-4 * c, key + ':' + what, f"{M.name}: a map from the {what} is not equivariant", g=[v.tolist() for v in g.values()])


def complete(case, mon, key='wide'):
    """C02: dimension, and equivariant maps are fixed by the orthogonal projector"""
    M = Maps(case)
    rng = np.random.RandomState(case['s'])
    dim, W = M.equivariant(rng)
    Q = M.r.equivariant_basis()
    mon.count('ranks compared')
    mon.check(tuple(Q.shape) == (M.m * M.n, dim), key + ':rank', f"{M.name}: the basis has shape {tuple(Q.shape)}, {dim} equivariant maps exist")
    P = M.r.equivariant_projector()
    sc = max(np.abs(W).max(initial=0), 1e-3)
    mon.count('projectors compared')
    mon.err(np.abs(M.maps(P @ M.vecs(W)) - W).max() / sc, 1e-3, key + ':projector', f"{M.name}: the projector changes an equivariant map")
    x, y = rng.randn(2, M.m, M.n)
    px, py = M.maps(P @ M.vecs(np.stack([x, y])))
    q = lambda a, b: (a * b).sum() / np.sqrt(M.m * M.n)
    mon.err(abs(q(px, y) - q(x, py)), 1e-2, key + ':selfadjoint', f"{M.name}: the projector is not selfadjoint")
    mon.err(np.abs(M.maps(P @ M.vecs(px[None])) - px).max() / max(np.abs(px).max(), 1e-3), 1e-3, key + ':idempotent', f"{M.name}: the projector is not idempotent")
    if dim:
        c = rng.randn(dim, 1).astype(np.float32)
        v = M.maps(Q @ c)
        mon.err(abs(np.linalg.norm(v) / np.linalg.norm(c) - 1), 1e-3, key + ':orthonormal', f"{M.name}: the basis is not orthonormal")


def matrices(case, mon, key='wide'):
    """C03: lazy group and Lie algebra matrices"""
    M = Maps(case)
    rng = np.random.RandomState(case['s'])
    mon.check(M.r.size() == M.m * M.n, key + ':size', f"{M.name}: size {M.r.size()}")
    W = rng.randn(2, M.m, M.n)
    for g in elements(M, rng):
        mon.count('matrices compared')
        c = cond(g) ** 4
        want = M.act(g, W)
        mon.err(np.abs(M.maps(M.r.rho(build.elem(g, M.Gs, M.rg)) @ M.vecs(W)) - want).max() / max(1, np.abs(want).max()), 1e-4 * c, key + ':rho', f"{M.name}: the group matrix")
    A = {k: r.tangent(rng) if r.algebra else np.zeros((r.d, r.d)) for k, r in enumerate(M.rg)}
    if any(r.algebra for r in M.rg):
        mon.count('matrices compared')
        want = M.act(A, W, True)
        mon.err(np.abs(M.maps(M.r.drho(build.elem(A, M.Gs, M.rg)) @ M.vecs(W)) - want).max() / max(1, np.abs(want).max()), 2e-4, key + ':drho', f"{M.name}: the Lie algebra matrix")
