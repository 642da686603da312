"""Reference model: matrix groups and representations in float64 numpy.

Nothing here imports the code under test.  A group is given by an independent definition
(algebra basis, discrete generators, membership residual); a representation is a nested tuple
whose meaning (matrix of a group element in the order in which it was written) is computed
by the textbook formulas.
"""
import itertools
import math
import numpy as np
from scipy.linalg import expm, block_diag

# ----------------------------------------------------------------------------- groups


class RG:
    """A reference group: d x d matrices."""

    def __init__(self, name, d, algebra=(), gens=(), member=None, orth=False, perm=False,
                 compact=True, code=None, order=None, label=None, labels=None):
        self.name = name          # unique
        self.code = code or name  # python expression that builds it from the library
        self.d = d
        self.algebra = [np.asarray(a) for a in algebra]
        self.gens = [np.asarray(h) for h in gens]
        self.member = member      # residual of the defining equations (0 for members)
        self.orth, self.perm, self.compact = orth, perm, compact
        self.order = order        # of a finite group
        self.label, self.labels = label, labels  # component of an element; all components
        self.complex = any(np.iscomplexobj(x) for x in self.algebra + self.gens)

    def sample(self, rng, size=None):
        if size is None:
            size = rng.uniform(0.3, 2.5) if self.compact else rng.uniform(0.2, 0.9)
        g = np.eye(self.d, dtype=complex if self.complex else float)
        if self.algebra:
            z = rng.randn(len(self.algebra))
            A = sum(zi * Ai for zi, Ai in zip(z, self.algebra))
            n = np.linalg.norm(A, 2)
            if n > 0:
                g = g @ expm(A * (size / n))
        if self.gens:
            for _ in range(rng.randint(0, 7 if self.compact else 3)):
                h = self.gens[rng.randint(len(self.gens))]
                g = g @ (h if rng.rand() < .5 else np.linalg.inv(h))
        return g

    def tangent(self, rng):
        if not self.algebra:
            return None
        z = rng.randn(len(self.algebra))
        A = sum(zi * Ai for zi, Ai in zip(z, self.algebra))
        return A / max(np.linalg.norm(A, 2), 1e-12)


def E(n, i, j, v=1.0):
    m = np.zeros((n, n), dtype=type(v) if isinstance(v, complex) else float)
    m[i, j] = v
    return m


def perm_matrix(p):
    """(P v)[i] = v[p[i]]"""
    p = np.asarray(p)
    m = np.zeros((len(p), len(p)))
    m[np.arange(len(p)), p] = 1
    return m


def _orth_res(g):
    return np.abs(g.T @ g - np.eye(len(g))).max()


def _so(n):
    return [E(n, i, j) - E(n, j, i) for i in range(n) for j in range(i)]


def SO(n):
    return RG(f"SO({n})", n, _so(n), [], orth=True, perm=(n == 1),
              member=lambda g: max(_orth_res(g), abs(np.linalg.det(g) - 1)),
              label=lambda g: 1, labels={1}, order=1 if n == 1 else None)


def O(n):
    r = np.eye(n); r[-1, -1] = -1
    return RG(f"O({n})", n, _so(n), [r], orth=True, member=_orth_res,
              label=lambda g: int(np.sign(np.linalg.det(g))), labels={1, -1}, order=2 if n == 1 else None)


def Trivial(n):
    return RG(f"Trivial({n})", n, orth=True, perm=True, member=lambda g: np.abs(g - np.eye(n)).max(), order=1)


def _rot2(t):
    return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])


def C(k):
    def member(g):
        return min(np.abs(g - _rot2(2 * np.pi * i / k)).max() for i in range(k))
    return RG(f"C({k})", 2, [], [_rot2(2 * np.pi / k)], orth=True, perm=(k == 1), member=member, order=k)


def D(k):
    f = np.diag([-1., 1.])

    def member(g):
        els = [_rot2(2 * np.pi * i / k) for i in range(k)]
        return min(np.abs(g - e).max() for e in els + [f @ e for e in els])
    return RG(f"D({k})", 2, [], [_rot2(2 * np.pi / k), f], orth=True, perm=False, member=member, order=2 * k)


def Scaling(n):
    def member(g):
        c = g[0, 0]
        return np.abs(g - c * np.eye(n)).max() + (0 if c > 0 else 1)
    return RG(f"Scaling({n})", n, [np.eye(n)], compact=False, member=member, label=lambda g: 1, labels={1})


def _lorentz_algebra(n):
    boosts = [E(n, 0, i) + E(n, i, 0) for i in range(1, n)]
    rots = [E(n, i, j) - E(n, j, i) for i in range(1, n) for j in range(1, i)]
    return boosts + rots


def _eta(n):
    return np.diag([1.] + [-1.] * (n - 1))


def _lorentz(name, n, gens, labels):
    eta = _eta(n)

    def label(g):
        return (int(np.sign(g[0, 0])), int(np.sign(np.linalg.det(g))))

    def member(g):
        r = np.abs(g.T @ eta @ g - eta).max()
        return r if label(g) in labels else max(r, 1.)
    return RG(name, n, _lorentz_algebra(n), gens, compact=False, member=member, label=label, labels=labels)


_P = lambda n: np.diag([1.] + [-1.] * (n - 1))
_TR = lambda n: np.diag([-1.] + [1.] * (n - 1))


def SO13p(): return _lorentz("SO13p()", 4, [], {(1, 1)})
def SO13(): return _lorentz("SO13()", 4, [-np.eye(4)], {(1, 1), (-1, 1)})
def O13(name="O13()"): return _lorentz(name, 4, [-np.eye(4), _TR(4)], {(1, 1), (-1, 1), (1, -1), (-1, -1)})
def Lorentz(): return O13("Lorentz()")
def SO11p(): return _lorentz("SO11p()", 2, [], {(1, 1)})
def O11(): return _lorentz("O11()", 2, [-np.eye(2), _TR(2)], {(1, 1), (-1, 1), (1, -1), (-1, -1)})


def Sp(m):
    J = np.block([[np.zeros((m, m)), np.eye(m)], [-np.eye(m), np.zeros((m, m))]])
    alg = []
    for i in range(m):
        for j in range(m):
            alg.append(E(2 * m, i, j) - E(2 * m, m + j, m + i))
    for i in range(m):
        for j in range(i + 1):
            s = E(m, i, j) + E(m, j, i)
            alg.append(np.block([[np.zeros((m, m)), s], [np.zeros((m, 2 * m))]]))
            alg.append(np.block([[np.zeros((m, 2 * m))], [s, np.zeros((m, m))]]))
    return RG(f"Sp({m})", 2 * m, alg, compact=False, member=lambda g: np.abs(g.T @ J @ g - J).max(),
              label=lambda g: 1, labels={1})


def Z(n):
    s = perm_matrix(np.roll(np.arange(n), 1))

    def member(g):
        p = s
        best = np.abs(g - np.eye(n)).max()
        for _ in range(n - 1):
            best = min(best, np.abs(g - p).max()); p = p @ s
        return best
    return RG(f"Z({n})", n, [], [s], orth=True, perm=True, member=member, order=n)


def _perm_res(g):
    return max(np.abs(g * (1 - g)).max(), np.abs(g.sum(0) - 1).max(), np.abs(g.sum(1) - 1).max())


def S(n):
    gens = []
    if n > 1:
        p = np.arange(n); p[[0, 1]] = [1, 0]
        gens = [perm_matrix(p), perm_matrix(np.roll(np.arange(n), 1))]
    return RG(f"S({n})", n, [], gens, orth=True, perm=True, member=_perm_res, order=math.factorial(n))


def SL(n):
    alg = [E(n, i, j) for i in range(n) for j in range(n) if i != j]
    alg += [E(n, i, i) - E(n, i + 1, i + 1) for i in range(n - 1)]
    return RG(f"SL({n})", n, alg, compact=False, orth=(n == 1), perm=(n == 1), member=lambda g: abs(np.linalg.det(g) - 1),
              label=lambda g: 1, labels={1}, order=1 if n == 1 else None)


def GL(n):
    alg = [E(n, i, j) for i in range(n) for j in range(n)]
    return RG(f"GL({n})", n, alg, compact=False, member=lambda g: 0. if np.linalg.det(g) > 0 else 1.,
              label=lambda g: 1, labels={1})


def _unit_res(g):
    return np.abs(g.conj().T @ g - np.eye(len(g))).max()


def U(n):
    alg = [(E(n, i, j) - E(n, j, i)).astype(complex) for i in range(n) for j in range(i)]
    alg += [1j * (E(n, i, j) + E(n, j, i)) for i in range(n) for j in range(i)]
    alg += [1j * E(n, i, i) for i in range(n)]
    return RG(f"U({n})", n, alg, member=_unit_res, label=lambda g: 1, labels={1})


def SU(n):
    alg = [(E(n, i, j) - E(n, j, i)).astype(complex) for i in range(n) for j in range(i)]
    alg += [1j * (E(n, i, j) + E(n, j, i)) for i in range(n) for j in range(i)]
    alg += [1j * (E(n, i, i) - E(n, i + 1, i + 1)) for i in range(n - 1)]
    return RG(f"SU({n})", n, alg, orth=(n == 1), perm=(n == 1),
              member=lambda g: max(_unit_res(g), abs(np.linalg.det(g) - 1)), label=lambda g: 1, labels={1},
              order=1 if n == 1 else None)


# the cube's faces as the library numbers them: opposite faces are (0,5),(1,3),(2,4)
_CUBE_NORMALS = np.array([[0, 0, 1], [0, -1, 0], [1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, 0, -1]])


def cube_rotations():
    """All 24 rotations of a cube as permutation matrices of its six face normals."""
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product([1, -1], repeat=3):
            R = np.zeros((3, 3)); R[np.arange(3), p] = s
            if np.linalg.det(R) > 0:
                img = _CUBE_NORMALS @ R.T
                perm = [int(np.flatnonzero((np.abs(_CUBE_NORMALS - v).max(1) < 1e-9))[0]) for v in img]
                m = np.zeros((6, 6)); m[perm, np.arange(6)] = 1
                out.append(m)
    return out


def Cube():
    els = cube_rotations()
    # two quarter turns about orthogonal axes generate the rotation group
    def quarter(axis):
        for m in els:
            fixed = np.flatnonzero(np.diag(m))
            if len(fixed) == 2 and axis in fixed and not np.allclose(m @ m, np.eye(6)):
                return m
    return RG("Cube()", 6, [], [quarter(0), quarter(1)], orth=True, perm=True, order=24,
              member=lambda g: min(np.abs(g - e).max() for e in els))


# Rubik's cube: faces in the order U,F,R,B,L,D, stickers of each face row by row of the net
#        B
#      L U R
#        F
#        D
# with (right, down) directions of each face in space as the side faces are seen with U on top
_RUBIK_FACES = {  # normal, right, down (x right, y back, z up)
    'U': ((0, 0, 1), (1, 0, 0), (0, -1, 0)),
    'F': ((0, -1, 0), (1, 0, 0), (0, 0, -1)),
    'R': ((1, 0, 0), (0, 1, 0), (0, 0, -1)),
    'B': ((0, 1, 0), (-1, 0, 0), (0, 0, -1)),
    'L': ((-1, 0, 0), (0, -1, 0), (0, 0, -1)),
    'D': ((0, 0, -1), (1, 0, 0), (0, 1, 0)),
}


def rubik_stickers():
    pos, nrm = [], []
    for f in 'UFRBLD':
        n, r, d = map(np.array, _RUBIK_FACES[f])
        for row in (-1, 0, 1):
            for col in (-1, 0, 1):
                if (row, col) == (0, 0):
                    continue
                pos.append(n + r * col + d * row); nrm.append(n)
    return np.array(pos), np.array(nrm)


def rubik_turns():
    """Quarter turns of the six faces as permutations: sticker i goes to place t[i]."""
    pos, nrm = rubik_stickers()
    key = {tuple(np.r_[p, n]): i for i, (p, n) in enumerate(zip(pos, nrm))}
    out = {}
    for f in 'UFRBLD':
        ax = np.array(_RUBIK_FACES[f][0])
        K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
        R = (np.eye(3) - K + K @ K).round().astype(int)  # by -90 degrees: clockwise
        t = np.arange(48)
        for i, (p, n) in enumerate(zip(pos, nrm)):
            if p @ ax == 1:
                t[i] = key[tuple(np.r_[R @ p, R @ n])]
        out[f] = t
    return out


RUBIK_ORDER = 43252003274489856000


def RubiksCube():
    gens = []
    for t in rubik_turns().values():
        m = np.zeros((48, 48)); m[t, np.arange(48)] = 1
        gens.append(m)
    return RG("RubiksCube()", 48, [], gens, orth=True, perm=True, member=_perm_res, order=RUBIK_ORDER)


def ZksZnxZn(k, n):
    In = np.eye(n)
    sh = perm_matrix(np.roll(np.arange(n), 1))
    idx = np.arange(n * n).reshape(n, n)
    rot = perm_matrix(np.rot90(idx, 4 // k).reshape(-1))
    ks = perm_matrix(np.roll(np.arange(k), 1))
    gens = [np.kron(np.eye(k), np.kron(sh, In)), np.kron(np.eye(k), np.kron(In, sh)), np.kron(ks, rot)]
    return RG(f"ZksZnxZn({k},{n})", k * n * n, [], gens, orth=True, perm=True, member=_perm_res, order=k * n * n)


def Embed(G, d, lo, hi, name=None, code=None):
    idx = np.arange(lo, hi)

    def emb(m, base):
        out = base.astype(complex if np.iscomplexobj(m) else float)
        out[np.ix_(idx, idx)] = m
        return out

    def member(g):
        rest = g.copy(); rest[np.ix_(idx, idx)] = np.eye(len(idx))
        return max(np.abs(rest - np.eye(d)).max(), G.member(g[np.ix_(idx, idx)]) if G.member else 0.)
    return RG(name or f"Embed({G.name},{d},{lo}:{hi})", d, [emb(a, np.zeros((d, d))) for a in G.algebra],
              [emb(h, np.eye(d)) for h in G.gens], member=member, orth=G.orth, perm=G.perm, compact=G.compact,
              code=code or f"Embed({G.code},{d},slice({lo},{hi}))", order=G.order,
              label=(lambda g: G.label(g[np.ix_(idx, idx)])) if G.label else None, labels=G.labels)


def SO2eR3(): return Embed(SO(2), 3, 0, 2, "SO2eR3()", "SO2eR3()")
def O2eR3(): return Embed(O(2), 3, 0, 2, "O2eR3()", "O2eR3()")
def DkeR3(k): return Embed(D(k), 3, 0, 2, f"DkeR3({k})", f"DkeR3({k})")


def elements(G):
    """all elements of a small finite group"""
    els = [np.eye(G.d)]
    i = 0
    while i < len(els):
        for h in G.gens:
            x = els[i] @ h
            if not any(np.abs(x - y).max() < 1e-4 for y in els):
                els.append(x)
        i += 1
        assert len(els) <= 500
    return els


def Prod(A, B):
    IA, IB = np.eye(A.d), np.eye(B.d)

    def label(g):  # not identifiable in general (signs), not used
        return 1
    good = A.orth and B.orth and not A.complex and not B.complex

    def member(g):
        """distance to the Kronecker products of an element of A with one of B: those of orthogonal matrices are unique up to sign"""
        M = np.asarray(g, float).reshape(A.d, B.d, A.d, B.d).transpose(0, 2, 1, 3).reshape(A.d ** 2, B.d ** 2)
        u, s, v = np.linalg.svd(M)
        a, b = u[:, 0].reshape(A.d, A.d) * A.d ** .5, v[0].reshape(B.d, B.d) * B.d ** .5
        res = np.abs(np.kron(a, b) * s[0] / (A.d * B.d) ** .5 - g).max() + abs(s[0] - (A.d * B.d) ** .5)
        # (group elements of a pair of opposite ones)
        return res + min(max(A.member(x * a), B.member(y * b)) for x in (1, -1) for y in (1, -1) if np.abs(np.kron(x * a, y * b) - g).max() < .5)if res < .5 else res
    order = None
    if good and A.order and B.order and A.order * B.order <= 400 and not A.algebra and not B.algebra:
        minus = [any(np.abs(x + np.eye(G.d)).max() < 1e-6 for x in elements(G)) for G in (A, B)]
        order = A.order * B.order // (2 if all(minus) else 1)
    return RG(f"({A.name}*{B.name})", A.d * B.d,
              [np.kron(a, IB) for a in A.algebra] + [np.kron(IA, b) for b in B.algebra],
              [np.kron(h, IB) for h in A.gens] + [np.kron(IA, h) for h in B.gens],
              orth=A.orth and B.orth, perm=A.perm and B.perm, compact=A.compact and B.compact,
              code=f"({A.code}*{B.code})", order=order, member=member if good and A.member and B.member else None)


# user defined groups: built in the harness from their generators (see build.py)
def User(name, algebra=(), gens=(), compact=False, lazy=False):
    xs = list(algebra) + list(gens)
    d = np.asarray(xs[0]).shape[0]
    orth = all(np.allclose(np.asarray(a).T, -np.asarray(a)) for a in algebra) and \
        all(np.allclose(np.asarray(h).T @ np.asarray(h), np.eye(d)) for h in gens)
    perm = orth and not len(algebra) and all(np.allclose(_perm_res(np.asarray(h)), 0) for h in gens)
    G = RG(name, d, algebra, gens, orth=orth, perm=perm, compact=compact)
    G.code = ('user', name, [np.asarray(a) for a in algebra], [np.asarray(h) for h in gens], lazy)
    return G


def Alt(n, lazy=False):
    gens = []
    for i in range(n - 2):
        p = np.arange(n); p[[0, 1, i + 2]] = p[[i + 2, 0, 1]]
        gens.append(perm_matrix(p))
    return User(f"Alt{'Fast' if lazy else ''}({n})", [], gens, compact=True, lazy=lazy)


def Heis():
    return User("Heisenberg", [E(3, 0, 1), E(3, 1, 2)], [])


def Aff(n):  # translations and rotations of R^n in homogeneous coordinates
    alg = [np.pad(a, ((0, 1), (0, 1))) for a in _so(n)] + [E(n + 1, i, n) for i in range(n)]
    return User(f"SE({n})", alg, [])


def Q8():
    i = np.array([[0, -1, 0, 0], [1, 0, 0, 0], [0, 0, 0, -1], [0, 0, 1, 0.]])
    j = np.array([[0, 0, -1, 0], [0, 0, 0, 1], [1, 0, 0, 0], [0, -1, 0, 0.]])
    return User("Q8", [], [i, j], compact=True)


def Cat():  # generated by a hyperbolic integer matrix
    return User("CatMap", [], [np.array([[2., 1], [1, 1]])])


def Roots(k, n=2):  # complex: k-th roots of unity, with a complex change of basis
    P = np.array([[1, 1j], [1j, 1]]) / np.sqrt(2)
    h = P @ np.diag([np.exp(2j * np.pi / k), 1]) @ P.conj().T
    return User(f"Roots({k})", [], [h], compact=True)


def ComplexU1():
    P = np.array([[1, 1j], [1j, 1]]) / np.sqrt(2)
    return User("ComplexU1", [P @ np.diag([1j, 0]) @ P.conj().T], [], compact=True)


def Signed(n):  # signed permutations (hyperoctahedral group)
    p = np.arange(n); p[[0, 1]] = [1, 0]
    return User(f"B({n})", [], [perm_matrix(p), perm_matrix(np.roll(np.arange(n), 1)), np.diag([-1.] + [1] * (n - 1))], compact=True)


def Conj(G, seed):
    """G in another (oblique) basis."""
    rng = np.random.RandomState(seed)
    while True:
        P = rng.randn(G.d, G.d)
        if np.linalg.cond(P) < 6:
            break
    Pi = np.linalg.inv(P)
    H = User(f"Conj({G.name},{seed})", [P @ a @ Pi for a in G.algebra], [P @ h @ Pi for h in G.gens])
    H.orth = H.perm = False
    return H


def Small(G, s, seed=0):
    """G with (some of) its generators small: the Lie algebra scaled, the discrete elements kept."""
    rng = np.random.RandomState(seed)
    H = User(f"Small({G.name},{s},{seed})", [a * s * (1 if i == 0 else rng.uniform(1, 3)) for i, a in enumerate(G.algebra)], G.gens, compact=G.compact)
    H.orth, H.perm = G.orth, G.perm
    return H


def Near(s, n=2):
    """generated by one element close to the identity: a hyperbolic rotation (n=2) or a unipotent matrix (n=3)"""
    h = np.array([[math.cosh(s), math.sinh(s)], [math.sinh(s), math.cosh(s)]]) if n == 2 else np.eye(n) + s * np.diag(np.ones(n - 1), 1)
    return User(f"Near({s},{n})", [], [h])


def group(expr):
    """The reference group for an expression like 'SO(3)', 'Prod(SO(3),S(3))'."""
    return eval(expr, {k: v for k, v in globals().items() if not k.startswith('__')})


# ------------------------------------------------------------------- representations
# ('V',k) ('S',) ('T',p,q,k) ('D',e) ('+',(e..)) ('n',n,e) ('*',(e..)) ('**',e,n) ('>>',a,b)
# ('<<',a,b) ('int',n) ('psi',order,k) ('P',k) ('P2',k)


USER = {}   # user defined representations: name -> (size(d), rho(g), drho(A))


def size(e, Gs):
    t = e[0]
    if t == 'U': return USER[e[1]][0](Gs[e[2]].d)
    if t == 'V': return Gs[e[1]].d
    if t in ('S', 'P'): return 1
    if t == 'psi': return 2
    if t == 'P2': return Gs[e[1]].d + 1
    if t == 'Q': return Gs[e[1]].d * (Gs[e[1]].d + 1) // 2
    if t == 'int': return e[1]
    if t == 'T': return Gs[e[3]].d ** (e[1] + e[2])
    if t == 'D': return size(e[1], Gs)
    if t == '+': return sum(size(x, Gs) for x in e[1])
    if t == 'n': return e[1] * size(e[2], Gs)
    if t == '*': return int(np.prod([size(x, Gs) for x in e[1]]))
    if t == '**': return size(e[1], Gs) ** e[2]
    if t in ('>>', '<<'): return size(e[1], Gs) * size(e[2], Gs)
    raise ValueError(e)


def sym_basis(d):
    """(B, Bi): columns of B are e_i e_j + e_j e_i (i<j) and e_i e_i as vectors; Bi its left inverse"""
    cols = []
    for i in range(d):
        for j in range(i, d):
            m = np.zeros((d, d)); m[i, j] = 1; m[j, i] = 1
            cols.append(m.ravel())
    B = np.array(cols).T
    return B, np.linalg.pinv(B)


def _kron(ms):
    out = np.eye(1)
    for m in ms:
        out = np.kron(out, m)
    return out


def rho(e, g):
    """Matrix of the rep at g = {k: matrix of group k}."""
    t = e[0]
    if t == 'V': return g[e[1]]
    if t == 'S': return np.eye(1)
    if t == 'U': return USER[e[1]][1](g[e[2]])
    if t == 'P': return np.sign(np.linalg.det(g[e[1]]).real) * np.eye(1)
    if t == 'P2': return block_diag(g[e[1]], np.linalg.det(g[e[1]]) * np.eye(1))
    if t == 'Q':
        B, Bi = sym_basis(len(g[e[1]]))
        return Bi @ np.kron(g[e[1]], g[e[1]]) @ B
    if t == 'psi': return np.linalg.matrix_power(g[e[2]], e[1])
    if t == 'int': return np.eye(e[1])
    if t == 'T':
        m = g[e[3]]; mi = np.linalg.inv(m).T
        return _kron([m] * e[1] + [mi] * e[2])
    if t == 'D': return np.linalg.inv(rho(e[1], g)).T
    if t == '+': return block_diag(*[rho(x, g) for x in e[1]])
    if t == 'n': return block_diag(*[rho(e[2], g)] * e[1]) if e[1] else np.zeros((0, 0))
    if t == '*': return _kron([rho(x, g) for x in e[1]])
    if t == '**': return _kron([rho(e[1], g)] * e[2])
    if t == '>>': return np.kron(rho(e[2], g), np.linalg.inv(rho(e[1], g)).T)
    if t == '<<': return np.kron(rho(e[1], g), np.linalg.inv(rho(e[2], g)).T)
    raise ValueError(e)


def _ksum(ms):
    n = int(np.prod([len(m) for m in ms]))
    out = np.zeros((n, n), dtype=np.result_type(*ms))
    for i, m in enumerate(ms):
        out = out + _kron([m if j == i else np.eye(len(x)) for j, x in enumerate(ms)])
    return out


def drho(e, A):
    t = e[0]
    if t == 'V': return A[e[1]]
    if t == 'U': return USER[e[1]][2](A[e[2]])
    if t in ('S', 'P'): return np.zeros((1, 1))
    if t == 'P2': return block_diag(A[e[1]], np.trace(A[e[1]]) * np.eye(1))
    if t == 'Q':
        B, Bi = sym_basis(len(A[e[1]]))
        return Bi @ _ksum([A[e[1]]] * 2) @ B
    if t == 'psi': return e[1] * A[e[2]]
    if t == 'int': return np.zeros((e[1], e[1]))
    if t == 'T':
        m = A[e[3]]
        if e[1] + e[2] == 0: return np.zeros((1, 1))
        return _ksum([m] * e[1] + [-m.T] * e[2])
    if t == 'D': return -drho(e[1], A).T
    if t == '+': return block_diag(*[drho(x, A) for x in e[1]])
    if t == 'n': return block_diag(*[drho(e[2], A)] * e[1]) if e[1] else np.zeros((0, 0))
    if t == '*': return _ksum([drho(x, A) for x in e[1]])
    if t == '**':
        return _ksum([drho(e[1], A)] * e[2]) if e[2] else np.zeros((1, 1))
    if t == '>>': return _ksum([drho(e[2], A), -drho(e[1], A).T])
    if t == '<<': return _ksum([drho(e[1], A), -drho(e[2], A).T])
    raise ValueError(e)


def show(e):
    t = e[0]
    if t == 'V': return f"V{e[1]}"
    if t == 'S': return "1"
    if t == 'P': return f"P{e[1]}"
    if t == 'U': return f"{e[1]}{e[2]}"
    if t == 'P2': return f"W{e[1]}"
    if t == 'Q': return f"Sym{e[1]}"
    if t == 'psi': return f"psi{e[1]}_{e[2]}"
    if t == 'int': return str(e[1])
    if t == 'T': return f"T({e[1]},{e[2]})_{e[3]}"
    if t == 'D': return show(e[1]) + ".T" if e[1][0] in ('V', 'T', 'S', 'P', 'P2', 'Q') else f"({show(e[1])}).T"
    if t == '+': return "(" + "+".join(map(show, e[1])) + ")"
    if t == 'n': return f"{e[1]}*{show(e[2])}"
    if t == '*': return "(" + "*".join(map(show, e[1])) + ")"
    if t == '**': return f"{show(e[1])}**{e[2]}"
    return f"({show(e[1])}{t}{show(e[2])})"


def tup(e):
    """JSON lists back to tuples."""
    return tuple(tup(x) for x in e) if isinstance(e, (list, tuple)) else e


def elems(Gs, rng, size=None):
    return {k: G.sample(rng, size) for k, G in enumerate(Gs)}


def constraints(e, Gs):
    """rho(h)-I and drho(A) for all generators of all groups (identity on the others)."""
    n = size(e, Gs)
    out = []
    one = {k: np.eye(G.d) for k, G in enumerate(Gs)}
    zero = {k: np.zeros((G.d, G.d)) for k, G in enumerate(Gs)}
    for k, G in enumerate(Gs):
        for h in G.gens:
            out.append(rho(e, {**one, k: h}) - np.eye(n))
        for A in G.algebra:
            out.append(drho(e, {**zero, k: A}))
    return out


def invariants(e, Gs):
    """(N, gap): orthonormal basis of the invariant subspace in float64; gap is the smallest nonzero
    singular value of the constraints (None if everything is invariant)."""
    if e[0] in ('+', 'n') and size(e, Gs) > 150:   # block by block
        parts = [invariants(x, Gs) for x in e[1] if size(x, Gs)] if e[0] == '+' else [invariants(e[2], Gs)] * e[1]
        if not parts:
            return np.zeros((0, 0)), None, 0.
        gaps = [p[1] for p in parts if p[1] is not None]
        return block_diag(*[p[0] for p in parts]), min(gaps) if gaps else None, max(p[2] for p in parts)
    Cs = constraints(e, Gs)
    n = size(e, Gs)
    if not Cs:
        return np.eye(n), None, 0.
    M = sum(c.conj().T @ c for c in Cs)
    w, v = np.linalg.eigh(M)
    scale = max(w.max(), 1.)
    r = int((w < 1e-11 * scale).sum())
    gap = None if r == n else math.sqrt(max(w[r], 0))
    return v[:, :r], gap, math.sqrt(max(w.max(), 0))
