import numpy as np
from hypothesis import strategies as st
from harness import gen, ref
from harness.core import Sub

RULE = ("A case is an environment, direction, elevation and a topology: 1-3 batch examples (station heights 8 km-36000 km, "
        "possibly different per example and station), 1-3 stations, 1-5 terminals at 1 m-300 km horizontal offset, indoor pattern. "
        "Non-trivial: more than one terminal or batch example, and terminals not vertically below the station.")
ASSUMPTIONS = ["single-precision accuracy"]


def s(max_b=3):
    @st.composite
    def go(draw):
        B = draw(st.integers(1, max_b)); N = draw(st.integers(1, 5)); S = draw(st.sampled_from([1, 1, 1, 2, 3]))
        return dict(env=draw(st.sampled_from(gen.ENVS)), dir=draw(st.sampled_from(gen.DIRS)), fc=draw(gen.carrier()), el=draw(gen.elevation()),
                    B=B, N=N, S=S, h=[draw(gen.height()) for _ in range(B * S)] if draw(st.booleans()) else [draw(gen.height())] * (B * S),
                    spread=draw(gen.fl(1., 1e5)), off=draw(st.sampled_from([0., 100., 1e4, 3e5])), nadir=draw(st.sampled_from([False, False, False, True])), s=draw(gen.seeds()),
                    indoor=draw(st.sampled_from([0, 1, 2])), los=draw(st.sampled_from([None, True, False])))
    return go()


def build(case):
    r = np.random.default_rng(case["s"])
    B, N, S = case["B"], case["N"], case["S"]
    ut = np.concatenate([r.uniform(-1, 1, [B, N, 2]) * case["spread"], r.uniform(1, 100, [B, N, 1])], -1).astype(np.float32)
    if case["nadir"]:                                                       # some terminals right below (or metres from the foot point of) a station
        ut[r.uniform(size=[B, N]) < .5, :2] *= r.choice([0., 0., 1. / case["spread"]])
    bs = np.concatenate([r.uniform(-1, 1, [B, S, 2]) * (0. if case["nadir"] else case["off"]), np.array(case["h"]).reshape(B, S, 1)], -1).astype(np.float32)
    ins = {0: np.zeros([B, N], bool), 1: r.uniform(size=[B, N]) < .5, 2: np.ones([B, N], bool)}[case["indoor"]]
    return ut, bs, ins


def fn(case, ctx):
    import tensorflow as tf
    sc = gen.mk_scenario(case)
    ut, bs, ins = build(case)
    B, N = case["B"], case["N"]
    z = np.zeros([B, N, 3], np.float32)
    kw = {} if case["los"] is None else dict(los=tf.constant(case["los"]))
    sc.set_topology(tf.constant(ut), tf.constant(bs), tf.constant(z), tf.zeros([B, case["S"], 3]), tf.constant(z), tf.constant(ins), **kw)
    u, b = ut.astype(float), bs.astype(float)
    d = u[:, None] - b[:, :, None]
    d2 = np.hypot(d[..., 0], d[..., 1])
    ctx.nt(N * B > 1 and d2.max() > 0.5)
    ctx.label("heights differ" if len(set(case["h"])) > 1 else "heights equal", ["outdoor", "mixed", "indoor"][case["indoor"]])
    ctx.check(int(sc.batch_size) == B and int(sc.num_ut) == N and int(sc.num_bs) == case["S"], "reported sizes")
    ctx.close(np.asarray(sc.distance_2d, float), d2, "distance_2d", 1e-5, 1e-3)
    want3 = ref.slant_range(b[:, :, None, 2] + 0 * d2, case["el"])
    ctx.close(np.asarray(sc.distance_3d, float), want3, "slant range", 2e-6, 2.0)
    ctx.check(np.all(np.asarray(sc.distance_3d) >= b[:, :, None, 2] * (1 - 1e-4) - 2), "slant range below the station height")
    mu = np.linalg.norm(u[:, :, None, :2] - u[:, None, :, :2], axis=-1)
    ctx.close(np.asarray(sc.matrix_ut_distance_2d, float), mu, "terminal distance matrix", 1e-5, 1e-2)
    ctx.close(np.asarray(sc.h_ut), ut[..., 2], "h_ut", 0, 0); ctx.close(np.asarray(sc.h_bs), bs[..., 2], "h_bs", 0, 0)
    # indoor/outdoor parts
    d2i, d2o, d3i, d3o = [np.asarray(x, float) for x in (sc.distance_2d_in, sc.distance_2d_out, sc.distance_3d_in, sc.distance_3d_out)]
    g2, g3 = np.asarray(sc.distance_2d, float), np.asarray(sc.distance_3d, float)
    ctx.close(d2i + d2o, g2, "2D indoor + outdoor parts", 1e-5, 1e-2)
    ctx.close(d3i + d3o, g3, "3D indoor + outdoor parts", 1e-5, 1.0)
    out = ~np.broadcast_to(ins[:, None], d2.shape)
    ctx.check(np.all(d2i[out] == 0) and np.all(d3i[out] == 0), "outdoor terminal has an indoor path part")
    ctx.check(np.all(d2i >= 0) and np.all(d2i <= 10.0001), f"indoor 2D part outside [0,10] m: {d2i.min()}..{d2i.max()}")
    for nme, x in (("2D outdoor", d2o), ("3D indoor", d3i), ("3D outdoor", d3o)):
        ctx.check(np.all(x >= -1e-5 * g3 * ("3D" in nme)), f"{nme} part negative: {x.min()}")
    # similar triangles
    ok = g2 > 1
    ctx.close((d3i / np.where(ok, g3, 1))[ok], (d2i / np.where(ok, g2, 1))[ok], "3D indoor part not proportional", 1e-4, 1e-5)
    # pointing
    n3 = np.linalg.norm(d, axis=-1)
    e = d / n3[..., None]
    aod, aoa, zod, zoa = [np.radians(np.asarray(x, float)) for x in (sc.los_aod, sc.los_aoa, sc.los_zod, sc.los_zoa)]
    for nme, x in (("AoD", aod), ("AoA", aoa), ("ZoD", zod), ("ZoA", zoa)):
        ctx.check(np.all(np.isfinite(x)) and np.all(x >= 0) and np.all(x <= 2 * np.pi + 1e-6), f"{nme} outside [0,360]")
    ud, ua = ref.unit(zod, aod), ref.unit(zoa, aoa)
    tol = 2e-6 + 0 * d2
    ctx.check(np.all(np.abs(ud - e).max(-1) < 5e-6), lambda: f"LoS departure direction {ud.reshape(-1, 3)[0]} does not point to the terminal {e.reshape(-1, 3)[0]}")
    i = np.unravel_index(np.argmax(np.abs(ua + e).max(-1)), d2.shape)
    ctx.check(np.all(np.abs(ua + e).max(-1) < 5e-6), lambda: f"LoS arrival direction {ua[i]} is not opposite to the departure direction {e[i]}; AoA={np.degrees(aoa[i])} ZoA={np.degrees(zoa[i])}")


def fn_mono(case, ctx):
    """slant range decreases with elevation, equals the height at zenith, grows with height; scenario-independent"""
    import tensorflow as tf
    z = np.zeros([1, 1, 3], np.float32)
    out = []
    for el, h in ((case["e1"], case["h1"]), (case["e2"], case["h1"]), (case["e1"], case["h2"]), (90., case["h1"])):
        sc = gen.mk_scenario(dict(env=case["env"], dir="downlink", fc=2e9, el=el))
        ut = np.array([[[case["x"], 0, 1.5]]], np.float32); bs = np.array([[[0, 0, h]]], np.float32)
        sc.set_topology(tf.constant(ut), tf.constant(bs), tf.constant(z), tf.constant(z), tf.constant(z), tf.constant([[False]]))
        out.append(float(np.asarray(sc.distance_3d).ravel()[0]))
    d11, d21, d12, dz = out
    ctx.nt(abs(case["e1"] - case["e2"]) > 1 and abs(case["h1"] / case["h2"] - 1) > .01)
    t = 4.0
    ctx.check((d21 - d11) * (case["e2"] - case["e1"]) <= t * abs(case["e2"] - case["e1"]), f"slant range not decreasing with elevation: {out}")
    ctx.check((d12 - d11) * (case["h2"] - case["h1"]) >= -t * abs(case["h2"] - case["h1"]), f"slant range not increasing with height: {out}")
    ctx.check(abs(dz - case["h1"]) < 2e-6 * case["h1"] + 2, f"slant range at zenith {dz}, height {case['h1']}")


def s_mono():
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), e1=gen.elevation(), e2=gen.elevation(), h1=gen.height(), h2=gen.height(), x=gen.fl(-1e4, 1e4)))


SUBS = [Sub("geometry", s, fn, quick=450, thorough=8000, shards=4, weight=4), Sub("monotone", s_mono, fn_mono, quick=60, thorough=1000, shards=2, weight=14)]
