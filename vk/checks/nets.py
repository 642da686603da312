"""Random specifications of networks (expressions over group 0, written without the group)."""
from .. import ref, gen, build


def io_rep(rng, rg, maxn):
    """sums of tensors with multiplicities, in any order"""
    d = rg.d
    for _ in range(100):
        xs = []
        for _ in range(rng.randint(1, 3)):
            t = rng.choice([0, 1, 1, 1, 2])
            p = rng.randint(0, t)
            e = ('T', p, t - p, 0)
            n = rng.randint(1, 3)
            xs.append(('n', n, e) if n > 1 else e)
        e = xs[0] if len(xs) == 1 else ('+', tuple(xs))
        if e[0] != '+' and (e[0] == 'T' or e[2][0] == 'T') and rng.random() < .5:
            e = ('V', 0) if rng.random() < .5 else ('n', rng.randint(2, 3), ('V', 0))
        if ref.size(e, [rg]) <= maxn and callable_rep(e):
            return e
    return ('V', 0)


def callable_rep(e):
    return True


def random_spec(rng, rg, maxio=40, chs=(8, 20, 37, 64)):
    """(rep_in, rep_out, ch, num_layers); ch: int | ('rep', e) | list of those"""
    ein, eout = io_rep(rng, rg, maxio), io_rep(rng, rg, maxio)

    def one():
        if rng.random() < .6 and rg.d > 1:
            return rng.choice(chs)
        return ['rep', hidden(rng, rg)]
    r = rng.random()
    L = rng.choice([1, 1, 2, 3])
    if r < .7:
        ch = one()
    else:
        ch = [one() for _ in range(rng.randint(1, 2))]
        ch = {'list': ch}
    return ein, eout, ch, L


def hidden(rng, rg):
    r = rng.random()
    if r < .2:
        return ('V', 0)
    if r < .35:
        return ('n', rng.randint(2, 4), ('V', 0))
    return io_rep(rng, rg, 60)


def build_ch(ch):
    if isinstance(ch, int):
        return ch
    if isinstance(ch, dict):
        return [build_ch(c) for c in ch['list']]
    return build.rep(ref.tup(ch[1]), [None])
