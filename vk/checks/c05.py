"""C05: answers do not depend on history, construction order, hashes, caches, failures or threads; ==, hash and < are coherent."""
TECHNIQUE = 'runtime monitoring: history/schedule stress with injected interrupts, thread-switch delays and hash seeds, reference-model oracle plus order/equality trace checker'
NOTE = ('Held on the histories and schedules explored: random operation sequences over related representations (permuted writings of the same problem, equal-looking groups), '
        'interrupts injected at random executed lines of the solver, several threads with injected delays, eight hash seeds per run plus random group names; every answer is judged against the same independent reference.')
import random
import sys
import threading
import time
import numpy as np
from .. import ref, gen, build, core
from ..core import Inconclusive, Violation
from . import c02, c03

RULE = ("a case is a history: a set of representations (differently written variants of the same problem, over several groups) and a random "
        "sequence of operations on them (bases, projectors, matrices, hashing, comparing, sorting, duals, instantiation, networks), possibly with an "
        "exception raised at a random executed line, or spread over threads with random delays; afterwards every representation is judged against the "
        "reference and against its snapshot from before.  nontrivial: more than one representation was solved; distinct by history")
ASSUMPTIONS = ["each worker process runs with its own PYTHONHASHSEED", "interrupts are exceptions raised at Python line boundaries of emlp/reps"]
NEED = {'answers judged': 90, 'pairs compared': 500, 'interrupts delivered': 8, 'threaded solves': 20, 'snapshots compared': 60}
GROUPS = ["SO(2)", "SO(3)", "O(3)", "C(4)", "Z(4)", "D(4)", "D(3)", "DkeR3(3)", "S(3)", "S(4)", "SL(2)", "SL(3)", "O13()", "SO13p()", "SO11p()", "Sp(1)", "Sp(2)",
          "Embed(S(3),4,1,4)", "Embed(S(3),4,0,3)", "Embed(S(3),5,1,4)", "Embed(O(2),5,1,3)", "Embed(O(2),5,0,2)", "Scaling(2)", "Scaling(3)", "Trivial(2)", "Trivial(3)", "GL(2)",
          "Cube()", "ZksZnxZn(2,2)", "Alt(4)", "Alt(4,True)", "Heis()", "Q8()", "Cat()", "Signed(3)", "Conj(SO(3),1)", "SU(2)", "U(2)", "Prod(SO(2),S(3))", "C(12)", "C(1)", "C(2)"]
# groups whose names could be confused with one another
TWINS = [("Embed(S(3),4,1,4)", "Embed(S(3),4,0,3)"), ("Embed(O(2),5,1,3)", "Embed(O(2),5,0,2)"), ("ZksZnxZn(2,3)", "ZksZnxZn(4,3)"), ("C(4)", "Z(4)"), ("D(3)", "DkeR3(3)"),
         ("SO(3)", "O(3)"), ("SO13p()", "O13()"), ("SO13()", "O13()"), ("SL(2)", "GL(2)"), ("S(4)", "Alt(4)"), ("Z(4)", "S(4)"), ("C(3)", "C(4)"), ("DkeR3(3)", "DkeR3(4)"), ("SO(2)", "SO(3)"),
         ("U(2)", "SU(2)"), ("Sp(1)", "SL(2)"), ("Scaling(2)", "Trivial(2)"), ("Embed(S(3),4,1,4)", "S(4)"), ("Embed(SO(3),5,2,5)", "SO(5)"), ("Prod(Z(2),Z(3))", "Z(6)")]


def cases(tier, seed):
    rng = gen.case_rng('c05', seed)
    i = 0
    while True:
        for k in ('history', 'eq', 'fault', 'history', 'threads', 'twins', 'eq', 'fault', 'reuse'):
            i += 1
            yield dict(k=k, s=rng.randrange(10 ** 9), big=tier != 'quick')


# ---------------------------------------------------------------- material
def sibling(e, rng):
    """another arrangement of the same ingredients (usually a different representation)"""
    t = e[0]
    S = lambda x: sibling(x, rng)
    if t in ('+', '*'):
        xs = [S(x) for x in e[1]]
        rng.shuffle(xs)
        if xs[0][0] == 'int' and all(x[0] != 'int' for x in xs[1:2]):
            pass
        return (t, tuple(xs))
    if t == 'n':
        return ('n', e[1], S(e[2]))
    if t == '**':
        return ('**', S(e[1]), e[2])
    if t in ('>>', '<<'):
        return ('<<' if t == '>>' and rng.random() < .5 else t, S(e[1]), S(e[2]))
    if t == 'D':
        return S(e[1]) if rng.random() < .3 else ('D', S(e[1]))
    if t == 'T':
        return ('T', e[2], e[1], e[3]) if rng.random() < .5 else e
    if t == 'V':
        return ('D', e) if rng.random() < .3 else e
    return e


def material(rng, n, maxn=60, user=.2, groups=None):
    """[(group expr, expression, deferred)]: related problems"""
    out = []
    gs = groups or [rng.choice(GROUPS) for _ in range(rng.randint(1, 3))]
    while len(out) < n:
        g = rng.choice(gs)
        G = ref.group(g)
        e = gen.rep(rng, [G], rng.choice([8, 20, maxn]), depth=rng.randint(0, 3), user=rng.random() < user)
        out.append((g, e, rng.random() < .3))
        for _ in range(rng.randint(0, 2)):
            s = sibling(e, rng)
            if rng.random() < .3:
                s = c03.rewrite(s, rng)
            out.append((g, s, rng.random() < .3))
    rng.shuffle(out)
    return out[:n]


class Pool:
    def __init__(self, mat, shared=True):
        self.mat = mat
        self.rg = {g: ref.group(g) for g, _, _ in mat}
        self.lg = {g: build.group(G) for g, G in self.rg.items()}
        self.reps = [build.rep(e, [self.lg[g]], d) for g, e, d in mat]

    def judge(self, i, mon, rng, key):
        g, e, d = self.mat[i]
        mon.count('answers judged')
        try:
            c02.judge(self.reps[i], e, [self.rg[g]], mon, key, rng, g, dense_limit=200)
        except Inconclusive:
            mon.count('spectral gap below the precision promised')

    def matrices(self, i, mon, rng, key):
        g, e, d = self.mat[i]
        c03.compare(self.reps[i], e, [self.rg[g]], [self.lg[g]], mon, key, rng, nel=1, lazy=False, where=g)

    def snapshot(self):
        out = []
        for (g, e, d), r in zip(self.mat, self.reps):
            p = getattr(r, 'perm', None)
            out.append((str(r), r.size(), None if p is None else np.array(p).tolist(), bool(r.is_permutation),
                        {str(k): v for k, v in r.reps.items()} if hasattr(r, 'reps') else None, str(getattr(r, 'G', None))))
        return out


def globals_snapshot():
    from emlp.reps import V, Scalar
    return (str(V), str(Scalar), V.G, Scalar.G, V.concrete, Scalar.concrete, bool(V.is_permutation), bool(Scalar.is_permutation), Scalar.size())


def operate(pool, i, rng, mon):
    """one operation of a user on the i-th representation"""
    g, e, d = pool.mat[i]
    r = pool.reps[i]
    G = pool.lg[g]
    op = rng.choice(['basis', 'basis', 'projector', 'rho', 'drho', 'hash', 'eq', 'sort', 'T', 'add', 'mul', 'call', 'canon', 'size', 'linear', 'gated', 'map'])
    mon.count('operations')
    n = r.size()
    if op == 'basis': r.equivariant_basis()
    elif op == 'projector': r.equivariant_projector() @ np.ones(n, np.float32)
    elif op == 'rho': r.rho_dense(G.sample())
    elif op == 'drho': r.drho_dense(np.zeros((G.d, G.d), np.float32))
    elif op == 'hash':
        hash(r)
    elif op == 'eq': [r == s for s in pool.reps]
    elif op == 'sort': sorted([s for s in atoms(pool)], key=None)
    elif op == 'T': r.T
    elif op == 'add': (r + rng.choice(pool.reps)).size()
    elif op == 'mul' and n <= 12:
        s = rng.choice(pool.reps)
        if s.size() <= 12 and str(getattr(s, 'G', 0)) == str(getattr(r, 'G', 1)): (r * s).size()
    elif op == 'call':
        from emlp.reps import V, T, Scalar
        (3 * V + Scalar + T(1, 1))(G); Scalar(G); V(G)
    elif op == 'canon': r.canonicalize()
    elif op == 'linear' and n * n <= 900 and not pool.rg[g].complex:
        import emlp.nn as nn
        nn.Linear(r, r)
    elif op == 'gated' and (hasattr(r, 'reps') or hasattr(r, 'G')):
        import emlp.nn.objax as nn
        if not _mixed(r): nn.gated(r)
    elif op == 'map' and n <= 8: (r >> r).equivariant_basis()


def _mixed(r):
    return any(not hasattr(x, 'G') for x in (r.reps if hasattr(r, 'reps') else [r]))


def atoms(pool):
    """representations as they occur in sums: these get sorted"""
    out = []
    for r in pool.reps:
        c = r.canonicalize()[0]
        out += list(c.reps) if type(c).__name__.startswith('SumRep') else [c]
    return out


# ---------------------------------------------------------------- cases
def run(case, mon):
    rng = gen.case_rng('c05', case['s'])
    nrng = np.random.RandomState(case['s'] % 2 ** 31)
    gs = globals_snapshot()
    globals()['run_' + case['k']](case, mon, rng, nrng)
    mon.count('snapshots compared')
    mon.check(globals_snapshot() == gs, case['k'] + ':shared', f"the shared V or Scalar changed: {gs} became {globals_snapshot()}")


def run_history(case, mon, rng, nrng):
    pool = Pool(material(rng, rng.randint(3, 5), 100 if case['big'] else 50))
    before = pool.snapshot()
    ks = list(range(len(pool.reps)))
    for _ in range(rng.randint(4, 10)):
        operate(pool, rng.choice(ks), rng, mon)
    rng.shuffle(ks)
    for i in ks:
        pool.judge(i, mon, nrng, 'history')
        pool.matrices(i, mon, nrng, 'history')
    mon.count('snapshots compared')
    mon.check(pool.snapshot() == before, 'history:modified', f"using a representation modified it: {before} became {pool.snapshot()}")
    mon.seen('nontrivial', [(g, ref.show(e)) for g, e, d in pool.mat])


def run_twins(case, mon, rng, nrng):
    """the same expressions over two groups that are easily confused, solved alternately"""
    g1, g2 = rng.choice(TWINS)
    try:
        G1, G2 = ref.group(g1), ref.group(g2)
    except Exception:
        return
    e = gen.rep(rng, [G1 if G1.d >= G2.d else G2], 40, depth=rng.randint(0, 2))
    mat = [(g1, e, False), (g2, e, True), (g1, ('T', 1, 1, 0), True), (g2, ('T', 1, 1, 0), False), (g1, ('V', 0), False), (g2, ('V', 0), False)]
    rng.shuffle(mat)
    pool = Pool(mat)
    for i in range(len(mat)):
        pool.judge(i, mon, nrng, 'twins')
    equality(pool, mon, nrng, 'twins')
    mon.seen('nontrivial', (g1, g2, ref.show(e)))


def run_reuse(case, mon, rng, nrng):
    """one expression written without a group, instantiated with several, and again with the first"""
    gs = [rng.choice(GROUPS) for _ in range(3)]
    e = None
    for _ in range(200):
        k = ref.group(rng.choice(gs))
        e = gen.rep(rng, [k], 60, depth=rng.randint(1, 3))
        if all(ref.size(e, [ref.group(g)]) <= 200 and gen._ok(e, [ref.group(g)]) for g in gs):
            break
    else:
        return
    D = build._rep(e, [None])
    if isinstance(D, int):
        return
    from emlp.reps import Rep
    if not callable(D):
        return
    text = str(D)
    pools = {}
    for g in gs + [gs[0]]:
        p = pools[g] = Pool([(g, e, True)])
        p.reps = [D(p.lg[g])]
        p.judge(0, mon, nrng, 'reuse')
        p.matrices(0, mon, nrng, 'reuse')
        mon.check(str(D) == text, 'reuse:modified', f"instantiating {text} changed it to {D}")
    for g, p in pools.items():
        p.matrices(0, mon, nrng, 'reuse')
    mon.seen('nontrivial', (gs, ref.show(e)))


class Injected(BaseException):
    pass


class Interrupt:
    """raises an exception at the k-th line executed in emlp/reps (and may count only)"""

    def __init__(self, k=None, exc=None):
        self.k, self.exc, self.n = k, exc, 0

    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n == self.k:
                raise self.exc
        return self.local

    def globl(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(core.REPO) and '/reps/' in f:
            return self.local
        return None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.globl)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


def run_fault(case, mon, rng, nrng):
    """an exception in the middle of a computation, then the computation again"""
    pool = Pool(material(rng, 3, 40))
    before = pool.snapshot()

    def work(i):
        r = pool.reps[i]
        x = rng2.random()
        if x < .5: r.equivariant_basis()
        elif x < .8: r.equivariant_projector() @ np.ones(r.size(), np.float32)
        else:
            fresh = build.rep(pool.mat[i][1], [pool.lg[pool.mat[i][0]]], pool.mat[i][2])
            fresh.equivariant_basis()
    for attempt in range(3):
        i = rng.randrange(3)
        s2 = rng.random()
        rng2 = random.Random(s2)
        exc = rng.choice([KeyboardInterrupt, Injected, MemoryError, RuntimeError])('injected')
        with Interrupt(k=int(10 ** rng.uniform(0, 3.3)), exc=exc) as it:
            try:
                work(i)
            except BaseException as e:
                if isinstance(e, core.CaseTimeout):
                    raise
                if e is not exc and 'injected' not in str(e):
                    raise
                mon.count('interrupts delivered')
    for i in range(3):
        pool.judge(i, mon, nrng, 'fault')
        pool.matrices(i, mon, nrng, 'fault')
    mon.count('snapshots compared')
    mon.check(pool.snapshot() == before, 'fault:modified', f"an interrupted computation modified a representation: {before} became {pool.snapshot()}")
    mon.seen('nontrivial', [(g, ref.show(e)) for g, e, d in pool.mat])


def run_threads(case, mon, rng, nrng):
    """several threads at once, with delays at random lines"""
    base = material(rng, 3, 40)
    pool = Pool(base)
    jobs = [rng.randrange(3) for _ in range(6)]
    out, errors = {}, []
    start = threading.Barrier(len(jobs))

    def tracer(seed):
        r = random.Random(seed)

        def local(frame, event, arg):
            if event == 'line' and r.random() < .02:
                time.sleep(r.choice([0, 0, 1e-4, 2e-3]))
            return local

        def globl(frame, event, arg):
            f = frame.f_code.co_filename
            return local if f.startswith(core.REPO) and '/reps/' in f else None
        return globl

    def job(j, i, seed):
        g, e, d = pool.mat[i]
        try:
            start.wait(30)
            sys.settrace(tracer(seed))
            fresh = build.rep(e, [pool.lg[g]], d)
            Q = fresh.equivariant_basis()
            P = fresh.equivariant_projector()
            out[j] = (build.dense(Q), np.asarray(P @ np.eye(fresh.size(), dtype=np.float32)))
        except BaseException as ex:
            errors.append((j, repr(ex)))
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=job, args=(j, i, rng.random()), daemon=True) for j, i in enumerate(jobs)]
        [t.start() for t in ts]
        [t.join(100) for t in ts]
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        raise Inconclusive('threads still running')
    mon.check(not errors, 'threads:raises', f"a thread computing {[(g, ref.show(e)) for g, e, d in pool.mat]} raised {errors[:2]}")
    for j, i in enumerate(jobs):
        g, e, d = pool.mat[i]
        N, gap, smax = ref.invariants(e, [pool.rg[g]])
        if gap is not None and (gap < 1e-3 or gap / max(smax, 1) < 1e-3):
            continue
        mon.count('threaded solves')
        Q, P = out[j]
        mon.check(Q.shape == N.shape, 'threads:rank', f"{ref.show(e)} over {g} computed in a thread has a basis of shape {Q.shape} instead of {N.shape}")
        mon.close(Q @ Q.conj().T, N @ N.conj().T, 2e-3, 'threads:basis', f"basis of {ref.show(e)} over {g} computed in a thread")
        mon.close(P, N @ N.conj().T, 2e-3, 'threads:projector', f"projector of {ref.show(e)} over {g} computed in a thread")
    for i in range(3):
        pool.judge(i, mon, nrng, 'threads')
    mon.seen('nontrivial', [(g, ref.show(e)) for g, e, d in pool.mat])


def action(pool, i, j, rng):
    """whether two representations act in the same way, by the reference: None if the groups differ"""
    (g1, e1, _), (g2, e2, _) = pool.mat[i], pool.mat[j]
    G1, G2 = pool.rg[g1], pool.rg[g2]
    if ref.size(e1, [G1]) != ref.size(e2, [G2]):
        return False
    if g1 != g2:
        triv = lambda e, G: all(np.abs(c).max() < 1e-9 for c in ref.constraints(e, [G]) or [np.zeros(1)])
        return triv(e1, G1) and triv(e2, G2) or None
    for _ in range(3):
        g = ref.elems([G1], rng, size=.7)
        a, b = ref.rho(e1, g), ref.rho(e2, g)
        if np.abs(a - b).max() > 1e-6 * max(1, np.abs(a).max()):
            return False
    return True


def equality(pool, mon, nrng, key):
    reps, n = pool.reps, len(pool.reps)
    name = lambda i: f"{ref.show(pool.mat[i][1])} over {pool.mat[i][0]}"
    for i in range(n):
        mon.check(reps[i] == reps[i], key + ':reflexive', f"{name(i)} does not equal itself")
        g, e, d = pool.mat[i]
        fresh = build.rep(e, [build.group(ref.group(g))], d)
        mon.check(fresh == reps[i] and reps[i] == fresh, key + ':fresh', f"{name(i)} built twice is not equal")
        mon.check(hash(fresh) == hash(reps[i]), key + ':hash', f"{name(i)} built twice has different hashes")
        for j in range(i + 1, n):
            mon.count('pairs compared')
            eq = bool(reps[i] == reps[j])
            mon.check(bool(reps[j] == reps[i]) == eq and bool(reps[i] != reps[j]) == (not eq), key + ':symmetric', f"== of {name(i)} and {name(j)} is not symmetric")
            if not eq:
                continue
            mon.count('equal pairs')
            mon.check(hash(reps[i]) == hash(reps[j]), key + ':hash', f"{name(i)} and {name(j)} are equal but have different hashes")
            a = action(pool, i, j, nrng)
            mon.check(bool(a), key + ':different', f"{name(i)} and {name(j)} compare equal but act differently")
    # canonical forms of sums: equal exactly if the multisets of types are
    ats = atoms(pool)
    seen = []
    for a in ats:
        if not any(a is b for b in seen): seen.append(a)
    seen = seen[:14]
    for a in seen:
        mon.check(not a < a, key + ':order', f"{a} < {a}")
        for b in seen:
            mon.count('pairs compared')
            if a == b:
                mon.check(hash(a) == hash(b), key + ':hash', f"{a} and {b} are equal but have different hashes")
                mon.check(not a < b, key + ':order', f"{a} and {b} are equal but ordered")
            else:
                mon.check(bool(a < b) != bool(b < a), key + ':order', f"{a} ({getattr(a, 'G', None)}) and {b} ({getattr(b, 'G', None)}) are different but not ordered, or ordered both ways")
            for c in seen:
                if a < b and b < c:
                    mon.check(a < c, key + ':transitive', f"{a} < {b} < {c} but not {a} < {c}")


def run_eq(case, mon, rng, nrng):
    gs = [rng.choice(GROUPS) for _ in range(2)]
    if rng.random() < .5:
        gs += list(rng.choice(TWINS))
    try:
        [ref.group(g) for g in gs]
    except Exception:
        gs = gs[:2]
    mat = []
    for g in gs:
        m = material(rng, 4, 30, groups=[g], user=.4)
        mat += m + [(g, ('V', 0), False), (g, ('D', ('V', 0)), False), (g, ('S',), False), (g, ('n', 2, ('V', 0)), False), (g, ('**', ('V', 0), 2), True)]
        if not ref.group(g).complex:
            mat += [(g, ('P', 0), False)]
        if g == 'SO(2)':
            mat += [(g, ('psi', k, 0), False) for k in (0, 1, 2, 3)]
    pool = Pool(mat)
    before = pool.snapshot()
    equality(pool, mon, nrng, 'eq')
    # sorting is independent of the initial order and merges equal reps
    ats = atoms(pool)
    a = sorted(ats); rng.shuffle(ats); b = sorted(ats)
    mon.check(all(x == y for x, y in zip(a, b)), 'eq:sort', f"sorting {a} gave {b} from another initial order")
    # equal representations are interchangeable: solve one, ask for another
    for i in rng.sample(range(len(mat)), 2):
        for j in range(len(mat)):
            if i != j and pool.reps[i] == pool.reps[j]:
                pool.reps[i].equivariant_basis()
                pool.judge(j, mon, nrng, 'eq')
                break
    mon.count('snapshots compared')
    mon.check(pool.snapshot() == before, 'eq:modified', "comparing representations modified them")
    mon.seen('nontrivial', [(g, ref.show(e)) for g, e, d in pool.mat])
