"""Consistency of the reference model itself: its groups are groups and its representations representations."""
import numpy as np
from vk import ref, gen
rng = np.random.RandomState(0)
for name in gen.LIB + gen.COMPLEX + gen.USER:
    G = ref.group(name)
    for _ in range(5):
        g = G.sample(rng)
        if G.member:
            r = G.member(g)
            assert r < 1e-6, (name, r)
        if G.orth and not G.complex:
            assert np.abs(g.T @ g - np.eye(G.d)).max() < 1e-8, name
assert len(ref.cube_rotations()) == 24
R = gen.case_rng('selftest')
for i in range(200):
    G = ref.group(R.choice(gen.LIB + gen.COMPLEX + gen.USER))
    e = gen.rep(R, [G], 60, depth=3, user=True)
    g, h = G.sample(rng), G.sample(rng)
    a = ref.rho(e, {0: g}) @ ref.rho(e, {0: h}); b = ref.rho(e, {0: g @ h})
    assert np.abs(a - b).max() < 1e-6 * max(1, np.abs(b).max(), np.linalg.norm(ref.rho(e, {0: g})) * np.linalg.norm(ref.rho(e, {0: h}))), (G.name, e)
    N, gap, _ = ref.invariants(e, [G])
    if gap is None or gap > 1e-3:
        s = max(1, np.abs(ref.rho(e, {0: g})).max())
        assert np.abs(ref.rho(e, {0: g}) @ N - N).max() < 1e-5 * s if N.size else True, (G.name, e)
print("reference model consistent")
