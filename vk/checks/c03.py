"""C03: size, group matrices and Lie algebra matrices of an expression are those it denotes, in the order written."""
TECHNIQUE = 'runtime monitoring: reference-model oracle (Kronecker/direct-sum semantics) over generated type-system programs'
NOTE = 'Held on the expressions explored: sizes, group and Lie algebra matrices (dense and lazy, deferred and concrete) of generated expressions compared entrywise with an independent float64 evaluation, and rewritten expressions with each other. Trusts the reference semantics.'
import numpy as np
from .. import ref, gen, build
from . import large

RULE = ("a case is a group and a random expression (depth up to 4) with +, *, **, .T, >>, <<, T(p,q), integers and user "
        "defined reps; its size, rho and drho at sampled elements are compared with the reference semantics, and a rewriting of it "
        "(n*e as a sum, powers as products, T(p,q) as V**p*V.T**q, >> as a product, double duals) with itself; "
        "nontrivial: at least one operator and dimension > 1; distinct by group and expression")
ASSUMPTIONS = ["entries are compared to 2e-4 of the largest entry times the condition number of the element (float32)"]
NEED = {'matrices compared': 600, 'distinct nontrivial': 80, 'rewritings compared': 20}
FIXED = [("O13()", ('*', (('+', (('V', 0), ('n', 2, ('**', ('V', 0), 2)))), ('D', ('+', (('D', ('V', 0)), ('n', 1, ('V', 0)))))))),
         ("SL(3)", ('*', (('+', (('T', 0, 1, 0), ('V', 0), ('int', 1))), ('+', (('V', 0), ('T', 0, 1, 0)))))),
         ("SO(3)", ('n', 5, ('*', (('V', 0), ('+', (('n', 2, ('S',)), ('V', 0))))))), ("SL(2)", ('T', 2, 3, 0)), ("GL(2)", ('<<', ('T', 1, 1, 0), ('+', (('T', 0, 2, 0), ('V', 0)))))]


def cases(tier, seed):
    for g, e in FIXED:
        yield dict(k='rep', g=g, e=e, d=False, s=0)
    yield dict(k='readme')
    groups = list(gen.LIB + gen.COMPLEX + gen.USER + gen.SMALL)
    # dual and vector differ only for non orthogonal groups: these see more
    groups += [g for g in groups if not ref.group(g).orth]
    rng = gen.case_rng('c03', seed)
    while True:
        rng.shuffle(groups)
        for g in groups:
            if rng.random() < .07:
                yield dict(large.case(rng), k='wide')
                continue
            G = ref.group(g)
            if rng.random() < (.15 if G.orth or G.d > 3 else .45):
                yield dict(k='rep', g=g, e=gen.nested(rng, [G], user=rng.random() < .3), d=rng.random() < .4, s=rng.randrange(10 ** 6))
                continue
            if rng.random() < .05:
                yield dict(k='rep', g=g, e=gen.big(rng, [G], 500), d=rng.random() < .4, s=rng.randrange(10 ** 6))
                continue
            m = int(rng.choice([8, 30, 60, 90, 90 if tier == 'quick' else 250]))
            e = gen.rep(rng, [G], m, depth=rng.randint(1, 4), user=rng.random() < .15)
            yield dict(k='rep', g=g, e=e, d=rng.random() < .4, s=rng.randrange(10 ** 6))


def rewrite(e, rng):
    """another way of writing the same representation with the same coordinate order"""
    t = e[0]
    R = lambda x: rewrite(x, rng)
    if t == 'n':
        if e[1] > 1 and rng.random() < .7:
            k = rng.randint(1, e[1] - 1)
            return ('+', (('n', k, R(e[2])), ('n', e[1] - k, R(e[2]))))
        return ('n', e[1], R(e[2]))
    if t == '**':
        if e[2] > 1 and rng.random() < .7:
            k = rng.randint(1, e[2] - 1)
            return ('*', (('**', R(e[1]), k), ('**', R(e[1]), e[2] - k)))
        return ('**', R(e[1]), e[2])
    if t == 'T':
        p, q, k = e[1:]
        if rng.random() < .6:
            xs = [('V', k)] * p + [('D', ('V', k))] * q
            if not xs: return ('S',)
            return xs[0] if len(xs) == 1 else ('*', tuple(xs))
        return e
    if t == '>>':
        return ('*', (R(e[2]), ('D', R(e[1])))) if rng.random() < .6 else ('>>', R(e[1]), R(e[2]))
    if t == '<<':
        return ('>>', R(e[2]), R(e[1])) if rng.random() < .6 else ('<<', R(e[1]), R(e[2]))
    if t == 'D':
        return ('D', R(e[1]))
    if t == '+':
        xs = [R(x) for x in e[1]]
        if rng.random() < .25:   # no copies of something
            xs.insert(rng.randint(1, len(xs)), ('n', 0, rng.choice([('V', 0), ('T', 0, 2, 0), ('D', ('V', 0)), ('+', (('V', 0), ('S',)))])))
            return ('+', tuple(xs))
        if len(xs) > 2 and rng.random() < .5:
            return ('+', (xs[0], ('+', tuple(xs[1:])))) if not all(x[0] == 'int' for x in xs[1:]) and xs[1][0] != 'int' else ('+', tuple(xs))
        return ('+', tuple(xs))
    if t == '*':
        xs = [R(x) for x in e[1]]
        if len(xs) > 2 and rng.random() < .5:
            return ('*', (xs[0], ('*', tuple(xs[1:]))))
        return ('*', tuple(xs))
    if t == 'V' and rng.random() < .3:
        return ('D', ('D', e))
    return e


def cond(g):
    return max(1., max(np.linalg.norm(v, 2) * np.linalg.norm(np.linalg.inv(v), 2) for v in g.values()))


def anymatrix(G, rng):
    """a matrix to differentiate along; antisymmetric where the library may identify reps with their duals"""
    A = rng.randn(G.d, G.d) / G.d
    return (A - A.T) / 2 if G.orth else A


def degree(e):
    t = e[0]
    if t in ('S', 'int'): return 0
    if t in ('V', 'P'): return 1
    if t == 'U': return {'Adj': 3, 'Cube3': 3, 'Both': 2, 'Det': 3, 'Alt2': 2}.get(e[1], 2)
    if t == 'P2': return 4
    if t == 'Q': return 2
    if t == 'psi': return e[1]
    if t == 'T': return e[1] + e[2]
    if t == '+': return max(degree(x) for x in e[1])
    if t == '*': return sum(degree(x) for x in e[1])
    if t == '**': return degree(e[1]) * e[2]
    if t == 'n': return degree(e[2])
    if t == 'D': return degree(e[1])
    return degree(e[1]) + degree(e[2])


def compare(r, e, rg, Gs, mon, key, rng, nel=2, lazy=True, where=''):
    n = ref.size(e, rg)
    name = f"{ref.show(e)} over {where}"
    mon.check(r.size() == n, key + ':size', f"{name} has size {r.size()} instead of {n}")
    for _ in range(nel):
        g = ref.elems(rg, rng, size=rng.uniform(.3, 1.2))
        gl = build.elem(g, Gs, rg)
        R = ref.rho(e, g)
        tol = 2e-5 * (2 + degree(e)) * cond(g) ** 2
        mon.count('matrices compared')
        mon.close(build.dense(r.rho_dense(gl)) * np.ones((n, n)), R, tol, key + ':rho', f"group matrix of {name}")
        x = rng.randn(n, 2)
        if lazy:
            op = r.rho(gl)
            mon.close(build.dense(op @ np.asarray(x, np.float32)), R @ x, tol, key + ':rho lazy', f"lazy group matrix of {name} applied to a matrix")
            mon.close(build.dense(op @ np.asarray(x[:, 0], np.float32)), R @ x[:, 0], tol, key + ':rho lazy', f"lazy group matrix of {name} applied to a vector")
        written = any(a[0] in ('P', 'P2', 'Q', 'psi', 'U') for a in gen.atoms(e))
        A = {k: (G.tangent(rng) if G.algebra else anymatrix(G, rng) * (not written)) for k, G in enumerate(rg)}  # without Lie algebra: only 0 is in it
        D = ref.drho(e, A)
        Al = build.elem(A, Gs, rg)
        mon.count('matrices compared')
        tol = 2e-5 * (2 + degree(e))
        mon.close(build.dense(r.drho_dense(Al)) * np.ones((n, n)), D, tol, key + ':drho', f"Lie algebra matrix of {name}")
        if lazy:
            mon.close(build.dense(r.drho(Al) @ np.asarray(x, np.float32)), D @ x, tol, key + ':drho lazy', f"lazy Lie algebra matrix of {name} applied to a matrix")
    if n > 1 and gen.tree_depth(e) > 0:
        mon.seen('nontrivial', (where, ref.show(e)))


def own_generators(r, e, rg, G, mon, key, where):
    """rho and drho of the group's own generators, in the (lazy) form the solver passes"""
    n = ref.size(e, rg)
    for h in list(G.discrete_generators)[:3]:
        H = build.dense(h)
        mon.count('matrices compared')
        mon.close(build.dense(r.rho(h)) * np.ones((n, n)), ref.rho(e, {0: H}), 2e-4 * cond({0: H}) ** 2, key + ':generator', f"{ref.show(e)} over {where} of a discrete generator")
    for A in list(G.lie_algebra)[:3]:
        D = build.dense(A)
        mon.count('matrices compared')
        mon.close(build.dense(r.drho(A)) * np.ones((n, n)), ref.drho(e, {0: D}), 2e-4, key + ':generator', f"{ref.show(e)} over {where} of a Lie algebra generator")


def run(case, mon):
    if case['k'] == 'readme':
        return readme(mon)
    if case['k'] == 'wide':
        return large.matrices(case, mon)
    e = ref.tup(case['e'])
    rg = [ref.group(case['g'])]
    Gs = [build.group(rg[0])]
    rng = np.random.RandomState(case['s'])
    r = build.rep(e, Gs, case['d'])
    compare(r, e, rg, Gs, mon, 'deferred' if case['d'] else 'concrete', rng, where=case['g'])
    own_generators(r, e, rg, Gs[0], mon, 'deferred' if case['d'] else 'concrete', case['g'])
    prng = gen.case_rng(case['s'])
    e2 = rewrite(e, prng)
    if e2 != e:
        assert ref.size(e2, rg) == ref.size(e, rg)
        r2 = build.rep(e2, Gs, prng.random() < .5)
        mon.count('rewritings compared')
        compare(r2, e2, rg, Gs, mon, 'rewritten', rng, nel=1, lazy=False, where=case['g'])
        g = ref.elems(rg, rng, size=.8)
        mon.close(build.dense(r2.rho_dense(build.elem(g, Gs, rg))), ref.rho(e, g), 2e-5 * (2 + degree(e)) * cond(g) ** 2, 'rewritten:rho', f"{ref.show(e2)} written instead of {ref.show(e)} over {case['g']}")


def readme(mon):
    """equivalences the documentation promises"""
    import emlp.groups as gr
    from emlp.reps import V, T, Scalar
    for G in (gr.SO(3), gr.O13(), gr.S(4), gr.SL(2)):
        a = (10 * T(1) + 5 * T(2))(G)
        b = (10 * V + 5 * V ** 2)(G)
        c = (5 * V * (2 + V))(G)
        d = 10 * V(G) + 5 * V(G) ** 2
        mon.check(a == b == d and hash(a) == hash(b) == hash(d), 'readme:equal', f"10*T(1)+5*T(2), 10*V+5*V**2 over {G}")
        mon.check(a.canonicalize()[0] == c.canonicalize()[0], 'readme:equal', f"5*V*(2+V) has another canonical form than 10*V+5*V**2 over {G}")
        mon.check((V >> V)(G) == (V * V.T)(G) == T(1, 1)(G), 'readme:maps', f"V>>V, V*V.T and T(1,1) over {G}")
        mon.check((V ** 0)(G) == Scalar == T(0)(G) and (V ** 0)(G).size() == 1, 'readme:scalar', 'V**0 is the scalar')
        mon.check((T(1, 0) << T(2, 1))(G) == (T(2, 1) >> T(1, 0))(G), 'readme:maps', 'A<<B is B>>A')
        mon.check((V + 3)(G).size() == G.d + 3 and (3 + V)(G).size() == G.d + 3, 'readme:int', 'integers are scalars in a sum')
        mon.check((sum([V, V, T(2)]))(G) == (2 * V + T(2))(G), 'readme:sum', 'sum([...]) starts from 0')
        for v in (V, V(G), T(2), T(1, 1, G), (V + V * V)(G)):
            w = v if v.concrete else v(G)
            zero = lambda r: (r if isinstance(r, int) else (r if r.concrete else r(G)).size()) == 0
            mon.check(zero(0 * v) and zero(v * 0), 'readme:int', f'no copies of {v}')
            for x in (v + 0, 0 + v, v + 0 * v, 0 * v + v, 1 * v, v * 1, v ** 1):
                x = x if x.concrete else x(G)
                mon.check(x == w and x.size() == w.size(), 'readme:int', f'{v} and no copies of something')
        mon.check(V(G).T.T == V(G), 'readme:dual', 'the dual of the dual')
        mon.check((V(G).T == V(G)) == bool(G.is_orthogonal), 'readme:dual', 'V and its dual coincide exactly for orthogonal groups')
