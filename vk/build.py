"""Builds library objects (groups and representations) for reference expressions."""
import numpy as np
from . import ref


def group(G):
    """The library's group for a reference group."""
    import emlp.groups as g
    if isinstance(G.code, tuple):
        _, name, alg, gens, lazy = G.code
        return user_group(name, alg, gens, lazy)
    if G.name.startswith('(') or '*' in G.code:
        pass
    return eval(G.code, {k: getattr(g, k) for k in dir(g)})


def user_group(name, alg, gens, lazy=False):
    from emlp.groups import Group
    from emlp.reps.linear_operators import LazyPerm

    class UserGroup(Group):
        def __init__(self, name):
            if len(alg):
                self.lie_algebra = np.stack(alg)
            if len(gens):
                if lazy:
                    self.discrete_generators = [LazyPerm(np.asarray(h.argmax(1))) for h in gens]
                else:
                    self.discrete_generators = np.stack(gens)
            super().__init__(name)
    return UserGroup(name)


def _user_reps():
    import jax.numpy as jnp
    from emlp.reps import Rep
    from emlp.groups import SO

    class SO2Irreps(Rep):
        def __init__(self, order):
            self.G = SO(2)
            self.order = order

        def rho(self, M):
            return jnp.linalg.matrix_power(M, self.order)

        def __str__(self):
            return f"psi{self.order}"

        def __call__(self, G):   # (for sums with representations written without the group)
            return self

    class PseudoScalar(Rep):
        def __init__(self, G=None):
            self.G = G

        def __str__(self):
            return "P"

        def rho(self, M):
            sign = jnp.linalg.slogdet(M @ jnp.eye(M.shape[0]))[0]
            return sign * jnp.eye(1)

        def __call__(self, G):
            return PseudoScalar(G)

    class Pair(Rep):
        """ base rep (+) determinant, written by hand """
        def __init__(self, G=None):
            self.G = G

        def __str__(self):
            return "W"

        def size(self):
            return self.G.d + 1

        def rho(self, M):
            M = M @ jnp.eye(M.shape[0])
            z = jnp.zeros((M.shape[0], 1))
            return jnp.block([[M, z], [z.T, jnp.linalg.det(M) * jnp.eye(1)]])

        def __call__(self, G):
            return Pair(G)

    class Sym2(Rep):
        """ symmetric square """
        def __init__(self, G=None):
            self.G = G

        def __str__(self):
            return "S2V"

        def rho(self, M):
            B, Bi = ref.sym_basis(M.shape[0])
            M = M @ jnp.eye(M.shape[0])
            return jnp.asarray(Bi) @ jnp.kron(M, M) @ jnp.asarray(B)

        def __call__(self, G):
            return Sym2(G)
    return SO2Irreps, PseudoScalar, Pair, Sym2


_cache = {}


def user_reps():
    if 'r' not in _cache:
        _cache['r'] = _user_reps()
    return _cache['r']


USER = {}   # classes of user defined representations (see checks/c16.py)


def rep(e, Gs, deferred=False):
    """The library's rep for e; Gs are library groups.  deferred: written without the group and
    then instantiated with it (only for one group)."""
    if deferred:
        assert len(Gs) == 1
        r = _rep(e, [None])
        return r(Gs[0])
    return _rep(e, Gs)


def _rep(e, Gs):
    from emlp.reps import V, T, Scalar
    t = e[0]
    R = lambda x: _rep(x, Gs)
    if t == 'V': return V if Gs[e[1]] is None else V(Gs[e[1]])
    if t == 'S': return Scalar
    if t == 'int': return e[1]
    if t == 'psi': return user_reps()[0](e[1])
    if t == 'U': return USER[e[1]](Gs[e[2]])
    if t == 'P': return user_reps()[1](Gs[e[1]])
    if t == 'P2': return user_reps()[2](Gs[e[1]])
    if t == 'Q': return user_reps()[3](Gs[e[1]])
    if t == 'T': return T(e[1], e[2]) if Gs[e[3]] is None else T(e[1], e[2])(Gs[e[3]])
    if t == 'D': return R(e[1]).T
    if t == '+':
        xs = [R(x) for x in e[1]]
        if all(isinstance(x, int) for x in xs):
            xs[0] = xs[0] * Scalar
        out = xs[0]
        for x in xs[1:]:
            out = out + x
        return out
    if t == 'n': return e[1] * R(e[2])
    if t == '*':
        out = R(e[1][0])
        for x in e[1][1:]:
            out = out * R(x)
        return out
    if t == '**': return R(e[1]) ** e[2]
    if t == '>>': return R(e[1]) >> R(e[2])
    if t == '<<': return R(e[1]) << R(e[2])
    raise ValueError(e)


def dense(x):
    """float64/complex128 numpy matrix of an array or LinearOperator."""
    from emlp.reps.linear_operators import densify
    m = np.asarray(densify(x))
    return m.astype(complex if np.iscomplexobj(m) else float)


def elem(gs, Gs, rgs):
    """Group element(s) as the library takes them: a matrix, or a dict by group."""
    import jax.numpy as jnp
    conv = {k: jnp.asarray(g, dtype=jnp.complex64 if np.iscomplexobj(g) else jnp.float32) for k, g in gs.items()}
    if len(Gs) == 1:
        return conv[0]
    return {Gs[k]: conv[k] for k in conv}
