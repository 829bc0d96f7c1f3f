import numpy as np
from hypothesis import strategies as st
from checks import c10_coefficients as c10
from harness import gen, ref, sut
from harness.core import Sub

RULE = ("helpers: random orientations (any magnitude, multiples of 90 degrees, near gimbal lock) and directions (poles and axes included) through the position "
        "rotation, the direction transform and the field transform. link: a whole link (arrays, orientations, directions, velocities) is rotated rigidly and the "
        "coefficients compared. Non-trivial: at least one orientation with two or more non-zero angles.")
ASSUMPTIONS = ["a general rotation leaves a LoS link's coefficients unchanged; rays with a random polarization matrix, which the model states in the global zenith/azimuth "
               "basis, are only invariant under rotations about the vertical",
               "the transform at the exact zenith direction of the local frame may return any azimuth"]


def angs():
    return st.one_of(gen.fl(-np.pi, np.pi), st.sampled_from([0., 0., np.pi / 2, -np.pi / 2, np.pi, 1e-4, np.pi / 2 - 1e-3]), gen.fl(-20., 20.))


def s_help():
    return st.fixed_dictionaries(dict(o=st.lists(st.tuples(angs(), angs(), angs()), min_size=1, max_size=4), rs=gen.seeds(), fc=gen.carrier(),
                                      n=st.integers(1, 4), poles=st.booleans()))


def fn_help(case, ctx):
    import tensorflow as tf
    m = sut.load()
    a = m.Antenna(polarization="single", polarization_type="V", antenna_pattern="omni", carrier_frequency=case["fc"])
    g = m.ChannelCoefficientsGenerator(case["fc"], a, a, False)
    o = np.array(case["o"], np.float32).astype(float)
    ctx.nt((np.abs(np.sin(o)) > 1e-6).sum(-1).max() > 1)
    r = np.random.default_rng(case["rs"])
    n = case["n"]
    f = lambda v: tf.constant(np.asarray(v, np.float32))
    R = ref.rot(*o.T)[:, None]                                              # [k,1,3,3]
    big = 1e-6 * (1 + np.abs(o).max())
    O = np.broadcast_to(o[:, None], (len(o), n, 3))
    # positions
    p = r.normal(size=(len(o), n, 3, 1)).astype(np.float32).astype(float)
    if hasattr(g, "_rot_pos"):
        q = np.asarray(g._rot_pos(f(O), f(p)), float)
        ctx.close(q, R @ p, "rotated position", 0, 20 * big)
        ctx.close(np.linalg.norm(q, axis=-2), np.linalg.norm(p, axis=-2), "length", 1e-5, 1e-6)
        e = np.broadcast_to(np.eye(3)[None], (len(o), 3, 3))
        E = np.concatenate([np.asarray(g._rot_pos(f(o), f(e[:, :, [i]])), float) for i in range(3)], -1)
        ctx.close(E @ np.swapaxes(E, -1, -2), e, "rotation is orthogonal", 0, 3e-6)
        ctx.close(np.linalg.det(E), np.ones(len(o)), "rotation keeps handedness (determinant)", 0, 5e-6)
        z = np.asarray(g._rot_pos(f(np.zeros_like(O)), f(p)), float)
        ctx.close(z, p, "zero orientation", 0, 0)
        ctx.label("positions")
    # directions
    th, ph = r.uniform(0, np.pi, (len(o), n)), r.uniform(-np.pi, np.pi, (len(o), n))
    if case["poles"]:
        th = r.choice([0, np.pi / 2, np.pi, 1e-3, 1.0], th.shape)
        ph = r.choice([0, np.pi / 2, -np.pi / 2, np.pi, 1.0], ph.shape)
    # directions along (or very near) the axes of the rotated frame
    ax = np.concatenate([np.eye(3)[[2, 2, 2, 0, 1]], -np.eye(3)[[2, 2, 2, 0, 1]]])
    x = np.einsum("kij,nj->kni", R[:, 0], np.tile(ax, (6, 1))) + r.choice([0., 0., 1e-4, 1e-7], (len(o), 60, 1)) * r.normal(size=(len(o), 60, 3))
    x /= np.linalg.norm(x, axis=-1, keepdims=True)
    th = np.concatenate([th, np.arccos(np.clip(x[..., 2], -1, 1))], 1)
    ph = np.concatenate([ph, np.arctan2(x[..., 1], x[..., 0])], 1)
    n += 60
    O = np.broadcast_to(o[:, None], (len(o), n, 3))
    th, ph = th.astype(np.float32).astype(float), ph.astype(np.float32).astype(float)
    d = ref.unit(th, ph)
    loc = np.einsum("...ji,...j->...i", np.broadcast_to(R, th.shape + (3, 3)), d)
    if hasattr(g, "_gcs_to_lcs"):
        t1, p1 = (np.asarray(v, float) for v in g._gcs_to_lcs(f(O), f(th), f(ph)))
        ctx.check(t1.shape == th.shape and p1.shape == th.shape, f"local angles of shape {t1.shape}, {p1.shape}, expected {th.shape}")
        ctx.check(np.all((t1 >= 0) & (t1 <= np.pi + 1e-6)) and np.all(np.abs(p1) <= np.pi + 1e-6), f"local angles out of range: {t1}, {p1}")
        # acos loses half the digits at the poles
        ctx.close(ref.unit(t1, p1), loc, "direction in the local frame", 0, 1.5e-3)
        off = np.minimum(np.abs(t1), np.abs(np.pi - t1)) > .05
        ctx.close(ref.unit(t1, p1)[off], loc[off], "direction in the local frame", 0, 20 * big)
        t2, p2 = (np.asarray(v, float) for v in g._gcs_to_lcs(f(np.zeros_like(O)), f(th), f(ph)))
        ctx.close(ref.unit(t2, p2), d, "direction under zero orientation", 0, 1.5e-3)
        ctx.label("directions")
    # fields: the same physical vector in both frames
    if hasattr(g, "_l2g_response"):
        off = (np.hypot(loc[..., 0], loc[..., 1]) > .02) & (np.hypot(d[..., 0], d[..., 1]) > .02)
        F = r.normal(size=(len(o), n, 2)).astype(np.float32).astype(float)
        G = np.asarray(g._l2g_response(f(F), f(O), f(th), f(ph)), float)
        ctx.check(G.shape == F.shape + (1,), f"global field of shape {G.shape}")
        ctx.close(np.sum(G[..., 0] ** 2, -1), np.sum(F ** 2, -1), "field power", 1e-5, 1e-6)
        lt, lp = np.arccos(np.clip(loc[..., 2], -1, 1)), np.arctan2(loc[..., 1], loc[..., 0])
        vec = np.einsum("...ij,...j->...i", np.broadcast_to(R, th.shape + (3, 3)), F[..., :1] * ref.th_hat(lt, lp) + F[..., 1:] * ref.ph_hat(lt, lp))
        got = G[..., 0, :1] * ref.th_hat(th, ph) + G[..., 1, :1] * ref.ph_hat(th, ph)
        ctx.close(got[off], vec[off], "field vector", 0, 4000 * big)
        ctx.label("fields")


def s_link(full):
    return c10.s(False).map(lambda c: dict(c, hs=[min(h, 5e5) for h in c["hs"]], v=min(c["v"], 30.), M=1 if full else c["M"], full=full, dop=True,
                                           dist=.5, los="all" if full else c["los"]))


def euler(R):
    b = np.arcsin(np.clip(-R[..., 2, 0], -1, 1))
    return np.stack([np.arctan2(R[..., 1, 0], R[..., 0, 0]), b, np.arctan2(R[..., 2, 1], R[..., 2, 2])], -1)


def turn(c, Q):
    n = dict(c)
    for k, ze in (("aoa", "zoa"), ("aod", "zod"), ("laoa", "lzoa"), ("laod", "lzod")):
        v = ref.unit(c[ze], c[k]) @ Q.T
        n[k], n[ze] = np.arctan2(v[..., 1], v[..., 0]), np.arccos(np.clip(v[..., 2], -1, 1))
    for k in ("to", "ro"):
        n[k] = euler(Q @ ref.rot(*np.moveaxis(c[k], -1, 0)))
    n["v"] = c["v"] @ Q.T
    return n


def fn_link(case, ctx):
    c = c10.inputs(case)
    r = np.random.default_rng(case["rs"] + 1)
    if case["full"]:
        c["k"] = np.full_like(c["k"], 1e14)
        c["laoa"], c["lzoa"] = c["laod"] + np.pi, np.pi - c["lzod"]         # the LoS ray is one straight line
        Q = ref.rot(*r.uniform(-np.pi, np.pi, 3))
    else:
        Q = ref.rot(r.uniform(-np.pi, np.pi), 0., 0.)
    n = turn(c, Q)
    f32 = lambda q: {k: v if v.dtype == bool else v.astype(np.float32).astype(float) for k, v in q.items()}
    c, n = f32(c), f32(n)
    h, d, phi, t = c10.run(case, c)
    h2, d2, phi2, _ = c10.run(case, n)
    ctx.check(np.array_equal(phi, phi2), "initial phases depend on the orientations under one seed")
    ctx.nt((np.abs(np.sin(c["to"])) > 1e-6).sum(-1).max() > 1)
    w1 = c10.reference(case, c, phi, t)[0]
    tol = np.maximum.reduce([np.abs(c10.reference(case, x, phi, t, np.random.default_rng(j))[0] - c10.reference(case, x, phi, t)[0]) for x in (c, n) for j in range(2)])
    own = np.abs(c10.reference(case, n, phi, t)[0] - w1)                    # single-precision inputs and gimbal lock of the new angles
    rms = np.sqrt(np.mean(np.abs(w1) ** 2, axis=(3, 4, 5, 6), keepdims=True))
    lam = ref.C0 / case["fc"]
    lim = 8 * tol + np.minimum(2 * own, .05 * (rms + np.abs(w1))) + 1e-3 * rms + 1e-3 * np.abs(w1) + 1e-6 + np.abs(w1) * (4e-6 * 2 * np.pi / lam * case["v"] * t.max() + 2 * np.pi * .5 / lam * 6e-7)
    if "aperture" in (case["tx"]["pat"], case["rx"]["pat"]):
        lim = lim + 4e-2 * np.abs(w1).max(axis=(3, 4, 5, 6), keepdims=True) + 2e-3
    bad = np.abs(h - h2) > lim
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, np.abs(h - h2), 0)), bad.shape)
        ctx.fail(f"coefficients change when the whole link is rotated{'' if case['full'] else ' about the vertical'}: {h[i]:.5f} -> {h2[i]:.5f} at {tuple(int(q) for q in i)} "
                 f"(tolerance {lim[i]:.1e}); {int(bad.sum())} of {bad.size} differ")
    ctx.close(d2, d, "delays of the rotated link", 0, 0)


SUBS = [Sub("helpers", s_help, fn_help, quick=800, thorough=12000, shards=2, weight=4),
        Sub("los_link", lambda: s_link(True), fn_link, quick=150, thorough=3000, shards=3, weight=6),
        Sub("yaw_link", lambda: s_link(False), fn_link, quick=150, thorough=3000, shards=3, weight=8)]
