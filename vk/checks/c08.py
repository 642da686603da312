"""C08: a lazy operator expression is compared with the same expression in dense float64 matrices."""
TECHNIQUE = 'runtime monitoring: differential oracle (float64 dense algebra) over generated operator programs, eager and under jit/vmap/grad'
NOTE = ('Held on the executions explored: random operator programs over every operator class (including bases, projectors, group matrices and lazy derivatives), applied to vectors, columns, matrices, '
        'densified, transposed and differentiated, each compared with float64 dense matrices. Transposes of the bases and projectors of sums of representations, numpy@operator and operator+numpy array are outside the supported interface.')
import numpy as np
from .. import ref, gen, build
from ..core import Inconclusive

RULE = ("a case is a random expression over the operator classes with real or complex leaves; every way to apply it is compared with dense "
        "matrices; nontrivial: at least one combinator; distinct by expression")
ASSUMPTIONS = ["float32 arithmetic: the tolerance is 2e-5 of the value of the same expression with absolute values in place of entries (a bound of the intermediate results)",
               "inverse transposes are judged if every inverted factor has condition number below 300"]
NEED = {'expressions': 60, 'applications': 700, 'inverse transposes': 15, 'transforms': 40, 'distinct nontrivial': 45}
QUICK_S = 40
TOL = 1e-5
POOL = [("SO(2)", ('T', 2, 0, 0)), ("S(3)", ('T', 2, 0, 0)), ("S(3)", ('T', 3, 0, 0)), ("SO(3)", ('T', 2, 0, 0)), ("O(3)", ('T', 4, 0, 0)), ("SO(3)", ('T', 3, 0, 0)), ("Z(4)", ('T', 2, 0, 0)), ("D(3)", ('V', 0)),
        ("S(5)", ('V', 0)), ("SU(2)", ('T', 1, 1, 0)), ("U(2)", ('T', 1, 1, 0)), ("SL(2)", ('T', 2, 0, 0)), ("O13()", ('T', 2, 0, 0)), ("Roots(3)", ('T', 1, 1, 0)), ("Scaling(2)", ('T', 1, 1, 0)), ("SO13p()", ('V', 0))]
SUMS = [("SO(3)", ('+', (('T', 2, 0, 0), ('S',), ('V', 0)))), ("S(3)", ('+', (('V', 0), ('T', 2, 0, 0), ('V', 0)))), ("SO(2)", ('n', 2, ('T', 2, 0, 0))), ("SU(2)", ('+', (('T', 1, 1, 0), ('S',)))), ("O(2)", ('+', (('T', 2, 0, 0), ('n', 3, ('S',)))))]
RHO = [("SO(3)", ('+', (('V', 0), ('T', 2, 0, 0), ('S',)))), ("O(2)", ('>>', ('V', 0), ('T', 2, 0, 0))), ("SL(2)", ('>>', ('V', 0), ('+', (('S',), ('V', 0))))), ("S(3)", ('T', 2, 0, 0)), ("U(2)", ('T', 1, 1, 0)), ("O13()", ('+', (('n', 2, ('V', 0)), ('D', ('V', 0))))), ("SU(2)", ('+', (('V', 0), ('D', ('V', 0)))))]
ATOMS = ['I', 'perm', 'shift', 'swap', 'rot90', 'lazy', 'ident', 'custom', 'jvp', 'pool', 'rho']


def cases(tier, seed):
    rng = gen.case_rng('c08', seed)
    # every class alone, real and complex, then random programs
    for c in (False, True):
        for k in ATOMS + ['kron', 'kronsum', 'concat', 'dsum', '+', '-', '*', 'scale', 'neg', '**', 'T', 'H']:
            for n in ((4, 4), (9, 9), (6, 6)):
                e = make(rng, n[0], n[1], 1, c, k)
                if e is not None:
                    yield dict(e=e, c=c, s=rng.randrange(10 ** 9))
    for s in SUMS:
        yield dict(e=['sumP', SUMS.index(s)], c=False, s=rng.randrange(10 ** 9))
        yield dict(e=['sumQ', SUMS.index(s)], c=False, s=rng.randrange(10 ** 9))
    while True:
        c = rng.random() < .35
        m = rng.choice([1, 2, 3, 4, 4, 6, 6, 8, 9, 12, 16])
        n = m if rng.random() < .6 else rng.choice([1, 2, 3, 4, 6, 8, 12])
        e = make(rng, m, n, rng.randint(1, 4 if tier == 'quick' else 6), c)
        if rng.random() < .1:
            i = rng.randrange(len(SUMS))
            k = ref.size(SUMS[i][1], [ref.group(SUMS[i][0])])
            e = ['*', make(rng, rng.choice([1, 3, k]), k, 2, c), ['sumP', i]]
        yield dict(e=e, c=c, s=rng.randrange(10 ** 9))


def divs(rng, n):
    d = [k for k in range(1, n + 1) if n % k == 0]
    return rng.choice(d)


def make(rng, m, n, depth, cx, kind=None):
    """A random expression of shape (m, n)."""
    M = lambda a, b, d=None: make(rng, a, b, depth - 1 if d is None else d, cx)
    sq = m == n
    if kind is None:
        kinds = ['lazy']
        if sq:
            kinds = ['I', 'perm', 'perm', 'shift', 'swap', 'lazy', 'lazy', 'ident', 'custom', 'pool', 'rho'] + (['rot90', 'rot90', 'jvp'] if int(m ** .5) ** 2 == m else [])
        if depth > 0:
            kinds = kinds[:1 + (rng.random() < .4) * 20] + ['kron', 'kron', 'concat', 'dsum', 'dsum', '+', '-', '*', '*', 'scale', 'neg', 'T', 'T', 'H'] + (['kronsum', 'kronsum', '**'] if sq else [])
        kind = rng.choice(kinds)
    s = rng.randrange(10 ** 6)
    if kind == 'I' and sq: return ['I', n]
    if kind == 'ident' and sq: return ['ident', n]
    if kind == 'perm' and sq:
        p = list(range(n)); rng.shuffle(p)
        return ['perm', p, rng.random() < .5]
    if kind == 'shift' and sq: return ['shift', n, rng.randint(-n, 2 * n)]
    if kind == 'swap' and sq and n > 1:
        return ['swap', rng.sample(range(n), 2), n]
    if kind == 'rot90' and sq and int(n ** .5) ** 2 == n: return ['rot90', int(n ** .5), rng.randint(-4, 5)]
    if kind == 'jvp' and sq and int(n ** .5) ** 2 == n and n > 1: return ['jvp', int(n ** .5), s]
    if kind == 'pool' and sq:
        c = [i for i, (g, e) in enumerate(POOL) if ref.size(e, [ref.group(g)]) == n and (cx or not ref.group(g).complex)]
        if c:
            return ['pool', rng.choice(c)]
    if kind == 'rho' and sq:
        c = [i for i, (g, e) in enumerate(RHO) if ref.size(e, [ref.group(g)]) == n and (cx or not ref.group(g).complex)]
        if c:
            return ['rho', rng.choice(c), s]
    if kind == 'custom': return ['custom', m, n, s, cx, rng.random() < .5]
    if kind == 'kron':
        k = rng.randint(1, 3)
        fm, fn, a, b = [], [], m, n
        for _ in range(k - 1):
            x, y = divs(rng, a), divs(rng, b)
            if sq and b % x == 0 and rng.random() < .7:
                y = x
            fm.append(x); fn.append(y)
            a, b = a // x, b // y
        fm.append(a); fn.append(b)
        return ['kron', [M(x, y) if rng.random() < .7 else ['dense', x, y, rng.randrange(10 ** 6), cx and rng.random() < .7, rng.random() < .5] for x, y in zip(fm, fn)]]
    if kind == 'kronsum' and sq:
        a, f = n, []
        for _ in range(rng.randint(0, 2)):
            x = divs(rng, a); f.append(x); a //= x
        f.append(a)
        return ['kronsum', [M(x, x) if rng.random() < .7 else ['dense', x, x, rng.randrange(10 ** 6), cx and rng.random() < .7, rng.random() < .5] for x in f]]
    if kind == 'concat':
        k = divs(rng, m)
        return ['concat', [M(m // k, n) if rng.random() < .7 else ['dense', m // k, n, rng.randrange(10 ** 6), cx, False] for _ in range(k)]]
    if kind == 'dsum':
        parts, a, b = [], m, n
        while a > 0 and b > 0 and len(parts) < 3:
            x, y = rng.randint(1, a), rng.randint(1, b)
            if sq and a == b and rng.random() < .7:
                y = x
            c = rng.randint(1, min(a // x, b // y))
            parts.append([x, y, c]); a -= x * c; b -= y * c
        if a and b:
            parts.append([a, b, 1])
        elif a or b:   # the rest of one side goes to the last block
            x, y, c = parts.pop()
            parts.append([x * c + a, y * c + b, 1])
        mult = any(p[2] > 1 for p in parts) or rng.random() < .5
        return ['dsum', [M(x, y) if rng.random() < .7 else ['dense', x, y, rng.randrange(10 ** 6), cx and rng.random() < .7, rng.random() < .5] for x, y, c in parts], [p[2] for p in parts] if mult else None]
    if kind in ('+', '-'): return [kind, M(m, n), M(m, n)]
    if kind == '*':
        k = rng.choice([1, 2, 3, 4, m, n])
        return ['*', M(m, k), M(k, n)]
    if kind == 'scale':
        v = rng.choice([2, -1.5, .25, 3., 'f32', 'zero']) if not (cx and rng.random() < .6) else rng.choice(['c', 'cf'])
        return ['scale', v, M(m, n), rng.random() < .5]
    if kind == 'neg': return ['neg', M(m, n)]
    if kind == '**' and sq: return ['**', M(n, n), rng.randint(0, 3)]
    if kind in ('T', 'H'): return [kind, M(n, m)]
    return ['lazy', m, n, s, cx and rng.random() < .7, rng.random() < .4]


SC = {'f32': 1.75, 'zero': 0, 'c': 1.5 - .5j, 'cf': .3 + 2j}


def mat(m, n, s, cx):
    rng = np.random.RandomState(s)
    A = rng.randn(m, n)
    if m == n:   # well conditioned
        q, r = np.linalg.qr(A)
        A = q @ np.diag(np.linspace(.6, 1.7, n)) @ np.linalg.qr(rng.randn(n, n))[0]
    if cx:
        A = A + 1j * rng.randn(m, n) * (.15 if m == n else 1)
    return A.astype(np.complex64 if cx else np.float32).astype(complex if cx else float)


class Ref:
    """dense value, magnitude bound, inverse transpose (None if not offered), depth"""
    def __init__(self, D, mag=None, inv=True, it=None, fwd=False):
        self.D, self.mag, self.inv, self.fwd = D, np.abs(D) if mag is None else mag, inv and D.shape[0] == D.shape[1], fwd
        self.cond = 1. if not self.inv else it
        # a bound of the sensitivity of the inverse transpose


def cond(D):
    return np.linalg.cond(D) if D.shape[0] == D.shape[1] and D.size else 1.


def evaluate(e):
    t = e[0]
    if t in ('I', 'ident'):
        r = Ref(np.eye(e[1]), it=1.)
        if t == 'ident':
            r.inv = False
        return r
    if t == 'perm':
        return Ref(np.eye(len(e[1]))[np.array(e[1])], it=1.)
    if t == 'shift':
        return Ref(np.roll(np.eye(e[1]), e[2], 0), it=1.)
    if t == 'swap':
        i = np.arange(e[2]); a, b = e[1]
        i[a], i[b] = b, a
        return Ref(np.eye(e[2])[i], it=1.)
    if t == 'rot90':
        n = e[1]
        return Ref(np.eye(n * n)[np.rot90(np.arange(n * n).reshape(n, n), e[2]).reshape(-1)], it=1.)
    if t in ('lazy', 'dense'):
        D = mat(e[1], e[2], e[3], e[4])
        return Ref(D, it=cond(D))
    if t == 'custom':
        return Ref(mat(e[1], e[2], e[3], e[4]), inv=False)
    if t == 'jvp':
        X, T = mat(e[1], e[1], e[2], False), mat(e[1], e[1], e[2] + 1, False)
        return Ref(np.kron(X, T) + np.kron(T, X), np.kron(abs(X), abs(T)) + np.kron(abs(T), abs(X)), inv=False)
    if t in ('pool', 'sumP', 'sumQ'):
        g, x = (POOL if t == 'pool' else SUMS)[e[1]]
        N = ref.invariants(x, [ref.group(g)])[0]
        if t == 'sumQ':
            return Ref(None_basis(e), inv=False, fwd=True)
        return Ref(N @ N.conj().T, np.maximum(np.abs(N @ N.conj().T), np.abs(N) @ np.abs(N).T), inv=False, fwd=t == 'sumP')
    if t == 'rho':
        g, x = RHO[e[1]]
        D = ref.rho(x, {0: rho_elem(e)})
        return Ref(D, it=cond(D))
    if t in ('kron', 'kronsum', 'concat', 'dsum'):
        rs = [evaluate(x) for x in e[1]]
        inv, fwd = all(r.inv for r in rs), any(r.fwd for r in rs)
        c = max((r.cond for r in rs if r.inv), default=1.)
        if t == 'kron':
            D, mg = ref._kron([r.D for r in rs]), ref._kron([r.mag for r in rs])
            return Ref(D, mg, inv, np.prod([r.cond for r in rs]) if inv else 1., fwd)
        if t == 'kronsum':
            return Ref(ref._ksum([r.D for r in rs]), ref._ksum([r.mag for r in rs]), inv and len(rs) == 1, rs[0].cond, fwd)
        if t == 'concat':
            return Ref(np.concatenate([r.D for r in rs]), np.concatenate([r.mag for r in rs]), False, 1., fwd)
        ms = e[2] or [1] * len(rs)
        from scipy.linalg import block_diag
        f = lambda a: block_diag(*[getattr(r, a) for r, k in zip(rs, ms) for _ in range(k)])
        return Ref(f('D'), f('mag'), inv, c, fwd)
    if t in ('+', '-', '*'):
        a, b = evaluate(e[1]), evaluate(e[2])
        fwd = a.fwd or b.fwd
        if t == '*':
            return Ref(a.D @ b.D, a.mag @ b.mag, a.inv and b.inv, (a.cond * b.cond) if a.inv and b.inv else 1., fwd)
        D = a.D + b.D if t == '+' else a.D - b.D
        return Ref(D, a.mag + b.mag, True, cond(D), fwd)   # sums are inverted densely
    if t == 'scale':
        a = evaluate(e[2])
        v = SC.get(e[1], e[1])
        return Ref(v * a.D, abs(v) * a.mag, a.inv and v != 0, a.cond, a.fwd)
    if t == 'neg':
        a = evaluate(e[1])
        return Ref(-a.D, a.mag, a.inv, a.cond, a.fwd)
    if t == '**':
        a = evaluate(e[1])
        P = np.linalg.matrix_power
        return Ref(P(a.D, e[2]), P(a.mag, e[2]), a.inv, a.cond ** max(e[2], 1), a.fwd)
    if t in ('T', 'H'):
        a = evaluate(e[1])
        return Ref(a.D.T if t == 'T' else a.D.conj().T, a.mag.T, a.inv and False, a.cond, a.fwd)
    raise ValueError(e)


def rho_elem(e):
    g = ref.group(RHO[e[1]][0]).sample(np.random.RandomState(e[2]))
    return np.asarray(g, np.complex64 if np.iscomplexobj(g) else np.float32).astype(complex if np.iscomplexobj(g) else float)


def None_basis(e):
    return np.asarray(build.dense(pool_op(e)))


_ops = {}


def pool_op(e):
    k = (e[0], e[1])
    if k not in _ops:
        g, x = (POOL if e[0] == 'pool' else SUMS)[e[1]]
        r = build.rep(x, [build.group(ref.group(g))])
        if e[0] == 'sumQ':
            _ops[k] = r.equivariant_basis()
        elif e[0] == 'sumP':
            _ops[k] = r.equivariant_projector()
        else:
            Q = r.equivariant_basis()
            from emlp.reps.linear_operators import lazify
            Q = lazify(Q)
            _ops[k] = r.equivariant_projector() if e[1] % 2 else Q @ Q.H
    return _ops[k]


def lib(e):
    import jax.numpy as jnp
    import emlp.reps.linear_operators as lo
    from emlp.reps.linear_operator_base import LinearOperator, IdentityOperator
    t = e[0]
    if t == 'I': return lo.I(e[1])
    if t == 'ident': return IdentityOperator((e[1], e[1]))
    if t == 'perm': return lo.LazyPerm(np.array(e[1]) if e[2] else jnp.array(e[1]))
    if t == 'shift': return lo.LazyShift(e[1], e[2])
    if t == 'swap': return lo.SwapMatrix(e[1], e[2])
    if t == 'rot90': return lo.Rot90(e[1], e[2])
    if t in ('lazy', 'dense'):
        A = mat(e[1], e[2], e[3], e[4])
        A = A.astype(np.complex64 if e[4] else np.float32)
        A = A if e[5] else jnp.asarray(A)
        return lo.Lazy(A) if t == 'lazy' else A
    if t == 'custom':
        A = mat(e[1], e[2], e[3], e[4])
        A = jnp.asarray(A.astype(np.complex64 if e[4] else np.float32))
        k = dict(matmat=lambda X: A @ X, rmatmat=lambda X: A.conj().T @ X) if e[5] else {}
        return LinearOperator((e[1], e[2]), lambda x: A @ x, rmatvec=lambda x: A.conj().T @ x, **k)
    if t == 'jvp':
        X, T = (jnp.asarray(mat(e[1], e[1], s, False), jnp.float32) for s in (e[2], e[2] + 1))
        return lo.LazyJVP(lambda M: jnp.kron(M, M), X, T)
    if t in ('pool', 'sumP', 'sumQ'): return pool_op(e)
    if t == 'rho':
        g, x = RHO[e[1]]
        r = build.rep(x, [build.group(ref.group(g))])
        M = rho_elem(e)
        return lo.lazify(r.rho(jnp.asarray(M, jnp.complex64 if np.iscomplexobj(M) else jnp.float32)))
    if t == 'kron': return lo.LazyKron([lib(x) for x in e[1]])
    if t == 'kronsum': return lo.LazyKronsum([lib(x) for x in e[1]])
    if t == 'concat': return lo.ConcatLazy([lib(x) for x in e[1]])
    if t == 'dsum': return lo.LazyDirectSum([lib(x) for x in e[1]], e[2]) if e[2] else lo.LazyDirectSum([lib(x) for x in e[1]])
    L = lambda x: lo.lazify(lib(x))
    if t == '+': return L(e[1]) + L(e[2])
    if t == '-': return L(e[1]) - L(e[2])
    if t == '*': return L(e[1]) @ L(e[2])
    if t == 'scale':
        v = np.float32(1.75) if e[1] == 'f32' else SC.get(e[1], e[1])
        return v * L(e[2]) if e[3] and e[1] != 'f32' else L(e[2]) * v
    if t == 'neg': return -L(e[1])
    if t == '**': return L(e[1]) ** e[2]
    if t == 'T': return L(e[1]).T
    if t == 'H': return L(e[1]).H
    raise ValueError(e)


def transposes(e):
    """whether something is transposed inside (then forward-only parts must not occur)"""
    return any(transposes(x) for x in e if isinstance(x, list)) or e[0] in ('T', 'H')


def depth(e):
    return 1 + max([depth(x) if isinstance(x[0], str) else max([depth(y) for y in x if isinstance(y, list)], default=0)
                    for x in e if isinstance(x, list) and x and isinstance(x[0], (str, list))], default=0)


def show(e):
    t = e[0]
    if t in ('kron', 'kronsum', 'concat', 'dsum'):
        return f"{t}({', '.join(map(show, e[1]))}{', ' + str(e[2]) if t == 'dsum' else ''})"
    if t in ('+', '-', '*'):
        return f"({show(e[1])} {t} {show(e[2])})"
    if t == 'scale': return f"{e[1]}*{show(e[2])}"
    if t in ('neg', 'T', 'H'): return f"{t}({show(e[1])})"
    if t == '**': return f"{show(e[1])}**{e[2]}"
    return f"{t}{e[1:4]}"


def run(case, mon):
    import jax
    import jax.numpy as jnp
    import emlp.reps.linear_operators as lo
    e = case['e']
    R = evaluate(e)
    if R.fwd and transposes(e):
        raise Inconclusive('transpose of a forward-only operator')
    if R.D.size > 40000 or R.mag.max(initial=0) > 1e6:
        raise Inconclusive('too large')
    A = lo.lazify(lib(e))   # a product of one matrix is that matrix
    rng = np.random.RandomState(np.random.randint(2 ** 31))
    m, n = R.D.shape
    name = show(e)[:200]
    mon.count('expressions')
    mon.seen('classes', type(A).__name__)
    if depth(e) > 1:
        mon.seen('nontrivial', e)
    mon.check(tuple(A.shape) == (m, n), 'operator:shape', f"{name}: advertised shape {A.shape}, {(m, n)} expected")
    cx = np.iscomplexobj(R.D)

    def operand(rows, cols=None, complex_=None):
        x = rng.randn(rows) if cols is None else rng.randn(rows, cols)
        if complex_ if complex_ is not None else rng.random() < .4:
            x = x + 1j * rng.randn(*x.shape)
            return x.astype(np.complex64)
        return x.astype(np.float32)

    def same(got, D, mag, x, key, what):
        got = np.asarray(got)
        want = D @ x
        mon.count('applications')
        mon.check(got.shape == want.shape, key, f"{name}: {what} has shape {got.shape}, {want.shape} expected")
        if want.size == 0:
            return
        scale = max((mag @ np.abs(x)).max(), 1e-3)
        mon.err(np.abs(got - want).max() / scale, TOL * (2 + depth(e)), key, f"{name}: {what} differs from the dense matrix")
    v, c, V, W = operand(n), operand(n, 1), operand(n, rng.randint(2, 5)), operand(n, n, False) if rng.random() < .3 else operand(n, 3)
    for x, what in ((v, 'A@x'), (c, 'A@column'), (V, 'A@X'), (W, 'A@W')):
        x = jnp.asarray(x) if rng.random() < .6 else x
        same(A @ x, R.D, R.mag, np.asarray(x), 'operator:apply', what)
    same(A * jnp.asarray(v), R.D, R.mag, v, 'operator:apply', 'A*x')
    same(A.matvec(jnp.asarray(v)), R.D, R.mag, v, 'operator:apply', 'matvec')
    same(A.matmat(jnp.asarray(V)), R.D, R.mag, V, 'operator:apply', 'matmat')
    same(lo.densify(A), R.D, R.mag, np.eye(n), 'operator:dense', 'densify')
    same(A.to_dense(), R.D, R.mag, np.eye(n), 'operator:dense', 'to_dense')
    B = jnp.asarray(mat(n, 2, rng.randint(10 ** 6), cx).astype(np.complex64 if cx else np.float32))
    same((A @ lo.Lazy(B)).to_dense(), R.D, R.mag, np.asarray(B), 'operator:apply', 'A@Lazy(B)')
    if not R.fwd:
        for op, D, what in ((A.T, R.D.T, 'T'), (A.H, R.D.conj().T, 'H')):
            mon.check(tuple(op.shape) == (n, m), 'operator:shape', f"{name}: {what} has shape {op.shape}")
            for x in (operand(m), operand(m, 1), operand(m, rng.randint(2, 4))):
                same(op @ jnp.asarray(x), D, R.mag.T, x, 'operator:' + what, f"{what}@x")
            same(lo.densify(op), D, R.mag.T, np.eye(m), 'operator:' + what, f"densified {what}")
        x = operand(n, 2)
        same(A.T.T @ jnp.asarray(x), R.D, R.mag, x, 'operator:T', 'T.T@x')
        same(A.H.T @ jnp.asarray(x), R.D.conj(), R.mag, x, 'operator:T', 'H.T@x')
        y = operand(m)
        same(A.rmatvec(jnp.asarray(y)), R.D.conj().T, R.mag.T, y, 'operator:H', 'rmatvec')
        y = operand(m, 2)
        same(A.rmatmat(jnp.asarray(y)), R.D.conj().T, R.mag.T, y, 'operator:H', 'rmatmat')
    if R.inv and hasattr(A, 'invT'):
        cd = max(cond(R.D), R.cond)
        if cd < 300:
            want = np.linalg.inv(R.D).T
            got = A.invT()
            mon.count('inverse transposes')
            G = build.dense(got)
            mon.check(G.shape == want.shape, 'operator:invT', f"{name}: the inverse transpose has shape {G.shape}")
            mon.err(np.abs(G - want).max() / max(np.abs(want).max(), 1e-3), 2e-5 * cd * (2 + depth(e)), 'operator:invT', f"{name}: invT is not the inverse transpose")
            x = operand(n)
            mon.err(np.abs(np.asarray(got @ jnp.asarray(x)) - want @ x).max() / max(np.abs(want).max() * np.abs(x).sum(), 1e-3), 2e-5 * cd * (2 + depth(e)), 'operator:invT',
                    f"{name}: invT applied to a vector is not the inverse transpose")
    # transformations
    if case['s'] % 3 == 0:
        mon.count('transforms', 3)
        same(jax.jit(lambda x: A @ x)(V), R.D, R.mag, V, 'operator:jit', 'jit')
        same(jax.vmap(lambda x: A @ x, 1, 1)(V), R.D, R.mag, V, 'operator:vmap', 'vmap over vectors')
        X3 = np.stack([V, 2 * V, V + 1])
        got = np.asarray(jax.vmap(lambda X: A @ X)(X3))
        for i in range(3):
            same(got[i], R.D, R.mag, X3[i], 'operator:vmap', 'vmap over matrices')
        if not cx:
            x = operand(n, 3, False)
            w = operand(m, 3, False)
            got = jax.grad(lambda x: jnp.vdot(jnp.asarray(w), A @ x).real)(jnp.asarray(x))
            same(got, R.D.T, R.mag.T, w, 'operator:grad', 'gradient')
            x1, w1 = operand(n, None, False), operand(m, None, False)
            got = jax.jit(jax.grad(lambda x: jnp.dot(jnp.asarray(w1), A @ x)))(jnp.asarray(x1))
            same(got, R.D.T, R.mag.T, w1, 'operator:grad', 'gradient')
    # the operands are not modified, and wrong sizes are refused
    if case['s'] % 5 == 0:
        for bad in (np.ones(n + 1, np.float32), np.ones((n + 1, 2), np.float32)):
            try:
                A @ bad
                ok = False
            except Exception:
                ok = True
            mon.check(ok, 'operator:sizes', f"{name}: an operand of the wrong size was accepted")
