"""Random groups and representations (reference expressions), deterministic in the seed."""
import random
from . import ref

# every group the library ships (dims where n^2, n^3 stay tractable) and user defined ones
LIB = ["SO(1)", "SO(2)", "SO(3)", "SO(4)", "SO(5)", "O(1)", "O(2)", "O(3)", "O(4)", "O(5)", "Trivial(1)", "Trivial(2)",
       "Trivial(3)", "C(1)", "C(2)", "C(3)", "C(4)", "C(5)", "C(8)", "C(12)", "D(1)", "D(2)", "D(3)", "D(4)", "D(6)",
       "Scaling(1)", "Scaling(2)", "Scaling(3)", "SO13p()", "SO13()", "O13()", "Lorentz()", "SO11p()", "O11()", "Sp(1)", "Sp(2)",
       "Sp(3)", "Z(1)", "Z(2)", "Z(3)", "Z(4)", "Z(5)", "Z(7)", "Z(8)", "S(1)", "S(2)", "S(3)", "S(4)", "S(5)", "S(6)", "SL(1)",
       "SL(2)", "SL(3)", "SL(4)", "GL(1)", "GL(2)", "GL(3)", "Cube()", "ZksZnxZn(2,2)", "ZksZnxZn(4,2)", "ZksZnxZn(2,3)",
       "SO2eR3()", "O2eR3()", "DkeR3(3)", "DkeR3(4)", "DkeR3(6)", "Embed(S(3),4,1,4)", "Embed(O(2),5,1,3)", "Embed(SO(3),5,2,5)",
       "Embed(SL(2),3,1,3)", "Prod(SO(2),S(3))", "Prod(Z(2),Z(3))", "Prod(O(2),Z(2))", "Prod(SL(2),Z(2))", "Prod(D(3),C(2))",
       "Embed(Z(3),4,0,3)", "Prod(S(2),SO(3))", "ZksZnxZn(4,3)"]
COMPLEX = ["U(1)", "U(2)", "SU(2)", "U(3)", "SU(3)", "SU(1)", "Embed(SU(2),3,0,2)", "Roots(3)", "Roots(4)", "ComplexU1()", "Roots(5)"]
USER = ["Alt(3)", "Alt(4)", "Alt(5)", "Alt(4,True)", "Heis()", "Aff(2)", "Aff(3)", "Q8()", "Cat()", "Signed(3)", "Signed(4)",
        "Conj(SO(3),1)", "Conj(S(3),2)", "Conj(O(2),5)", "Conj(SL(2),3)", "Conj(Z(4),4)"]
# generators close to the identity, or of small or different norms
SMALL = ["C(90)", "C(360)", "C(720)", "D(200)", "Small(SO(3),.01)", "Small(SO(2),.005)", "Small(O(3),.008)", "Small(SL(2),.01)", "Small(Sp(1),.02)", "Small(SO13p(),.01)",
         "Small(GL(2),.01)", "Small(SU(2),.01)", "Small(Scaling(2),.007)", "Small(SO(4),.01,2)", "Near(.01)", "Near(.005)", "Near(.01,3)", "Small(Prod(SO(2),S(3)),.01)", "DkeR3(150)"]
ORDER = {g: i for i, g in enumerate(LIB + COMPLEX + USER + SMALL)}


def pick(rng, pools):
    w = {'lib': LIB, 'complex': COMPLEX, 'user': USER}
    return rng.choice(w[rng.choice(pools)])


def rep(rng, Gs, maxn, depth=3, user=False, gidx=None):
    """A random expression of size 1..maxn over the groups Gs (reference groups)."""
    for _ in range(200):
        e = _rep(rng, Gs, maxn, depth, user)
        n = ref.size(e, Gs)
        if 1 <= n <= maxn and _ok(e, Gs):
            return e
    return ('V', 0)


def _atom(rng, Gs, maxn, user):
    k = rng.randrange(len(Gs))
    r = rng.random()
    if user and r < .25 and not Gs[k].complex:
        if Gs[k].name == 'SO(2)':
            return ('psi', rng.randint(0, 4), k)
        return rng.choice([('P', k), ('P2', k), ('Q', k)])
    if r < .35:
        return ('V', k)
    if r < .45:
        return ('S',)
    d = max(Gs[k].d, 2)
    top = 0
    while d ** (top + 1) <= maxn and top < 5:
        top += 1
    t = rng.randint(0, max(top, 1))
    p = rng.randint(0, t)
    return ('T', p, t - p, k)


def _rep(rng, Gs, maxn, depth, user):
    if depth == 0 or maxn < 2:
        return _atom(rng, Gs, maxn, user)
    r = rng.random()
    sub = lambda m, d=depth - 1: _rep(rng, Gs, max(1, int(m)), d, user)
    if r < .18:
        return _atom(rng, Gs, maxn, user)
    if r < .45:
        k = rng.randint(2, 4)
        xs = [sub(maxn / k) for _ in range(k)]
        if rng.random() < .25:
            xs[rng.randrange(1, k)] = ('int', rng.randint(1, 3))
        return ('+', tuple(xs))
    if r < .57:
        n = rng.randint(1, 4)
        return ('n', n, sub(maxn / n))
    if r < .72:
        k = rng.randint(2, 3)
        return ('*', tuple(sub(maxn ** (1 / k), depth - 1) for _ in range(k)))
    if r < .78:
        n = rng.randint(0, 3)
        return ('**', sub(maxn ** (1 / max(n, 1))), n)
    if r < .92:
        a = maxn ** .5
        return (rng.choice(['>>', '<<']), sub(a), sub(a))
    return ('D', sub(maxn))


def big(rng, Gs, maxn):
    """many copies of few types"""
    k = rng.choice(range(len(Gs)))
    G = Gs[k]
    types = [('V', k), ('S',), ('D', ('V', k))] + ([('T', 2, 0, k), ('T', 1, 1, k)] if G.d <= 8 else [])
    for _ in range(50):
        terms = tuple(('n', rng.choice([1, 2, 7, 20, 33, 64, 100, 130]), rng.choice(types)) for _ in range(rng.randint(1, 5)))
        e = ('+', terms) if len(terms) > 1 else terms[0]
        if maxn // 4 <= size_(e, Gs) <= maxn:
            return e
    return ('n', 70, ('V', k))


size_ = ref.size


def nested(rng, Gs, maxn=140, user=False):
    """many small factors (or terms) of several types in random brackets: their reorderings compose in nontrivial ways"""
    ks = range(len(Gs))

    def atom(sums):
        k = rng.choice(ks)
        r = rng.random()
        if user and r < .2 and not Gs[k].complex:
            return rng.choice([('P', k), ('P2', k)])
        if r < .45: return ('V', k)
        if r < .8: return ('D', ('V', k))
        if sums and r < .9: return rng.choice([('T', 1, 1, k), ('T', 2, 0, k), ('T', 0, 2, k), ('S',)])
        if r < .95: return ('+', (('V', k), ('D', ('V', k)))) if rng.random() < .5 else ('+', (('D', ('V', k)), ('S',)))
        return ('S',)

    def tree(op, xs):
        if len(xs) == 1:
            return xs[0]
        if rng.random() < .25:
            return (op, tuple(xs))
        i = rng.randrange(1, len(xs))
        l, r = tree(op, xs[:i]), tree(op, xs[i:])
        if rng.random() < .2: l = ('D', l)
        if rng.random() < .2: r = ('D', r)
        if op == '*' and rng.random() < .15:
            return ('>>', r, l)
        return (op, (l, r))
    for _ in range(100):
        op = rng.choice('**+')
        if op == '*':
            xs = [atom(False) for _ in range(rng.randint(3, 6))]
        else:
            xs = [atom(True) if rng.random() < .5 else tree('*', [atom(False) for _ in range(rng.randint(2, 3))]) for _ in range(rng.randint(3, 6))]
        e = tree(op, xs)
        if op == '+' and rng.random() < .3:
            e = ('*', (e, tree('*', [atom(False) for _ in range(2)])))
        if 1 < ref.size(e, Gs) <= maxn:
            return e
    return ('V', 0)


def _isint(e):
    return e[0] == 'int' or (e[0] == 'n' and _isint(e[2]))


def _ok(e, Gs):
    """Whether the expression can be built: nothing huge is hidden by a power 0."""
    t = e[0]
    if t in ('+', '*'):
        return all(_ok(x, Gs) for x in e[1])
    if t in ('>>', '<<'):
        return _ok(e[1], Gs) and _ok(e[2], Gs)
    if t == '**':
        return _ok(e[1], Gs) and (e[2] > 0 or ref.size(e[1], Gs) < 3000)
    if t == 'D':
        return _ok(e[1], Gs)
    if t == 'n':
        return _ok(e[2], Gs)
    return True


def atoms(e, out=None):
    out = [] if out is None else out
    if e[0] in ('V', 'S', 'T', 'P', 'P2', 'Q', 'psi', 'int', 'U'):
        out.append(e)
    elif e[0] in ('+', '*'):
        for x in e[1]:
            atoms(x, out)
    elif e[0] in ('>>', '<<'):
        atoms(e[1], out); atoms(e[2], out)
    elif e[0] in ('D', '**'):
        atoms(e[1], out)
    elif e[0] == 'n':
        atoms(e[2], out)
    return out


def groups_used(e):
    return {a[-1] for a in atoms(e) if a[0] in ('V', 'T', 'P', 'P2', 'Q', 'psi', 'U')}


def tree_depth(e):
    t = e[0]
    if t in ('+', '*'):
        return 1 + max(tree_depth(x) for x in e[1])
    if t in ('>>', '<<'):
        return 1 + max(tree_depth(e[1]), tree_depth(e[2]))
    if t in ('D', '**'):
        return 1 + tree_depth(e[1])
    if t == 'n':
        return 1 + tree_depth(e[2])
    return 0


def case_rng(*parts):
    return random.Random("/".join(map(str, parts)))
