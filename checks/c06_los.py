import numpy as np
from hypothesis import strategies as st
from harness import gen, stat, sut, tables
from harness.core import Sub

RULE = ("A case is an environment, direction, carrier, elevation, indoor pattern and requested LoS state. forced: state must be exact; "
        "sampled: >=1200 links, number of LoS links per class within exact binomial 1e-8 tails, row/column dispersion by chi-square. "
        "Non-trivial: indoor and outdoor terminals mixed, or sampled state.")
ASSUMPTIONS = ["elevations half-way between table entries accept either neighbour"]


def s_forced():
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=gen.elevation(), h=gen.height(),
                                      t=gen.topo(max_b=3, max_ut=5, stations=True, los=(True, False, None), indoor=(1, 1, 1, 0, 2)), rs=gen.seeds(), kind=st.sampled_from(["scenario", "channel"]),
                                      py=st.booleans()))


def fn_forced(case, ctx):
    sut.seed(case["rs"])
    t = case["t"]
    o = (gen.mk_scenario if case["kind"] == "scenario" else gen.mk_channel)(case)
    kw = dict(los=bool(t["los"])) if (case["py"] and t["los"] is not None) else {}
    a = gen.set_topo(o, t, case["h"], **kw)
    sc = o if case["kind"] == "scenario" else o._scenario
    los = np.asarray(sc.los)
    ins = a["in_state"]
    ctx.nt(ins.any() and not ins.all())
    ctx.label(f"requested {t['los']}", "mixed indoor" if ins.any() and not ins.all() else "uniform indoor")
    ctx.check(los.shape == (t["B"], t["nb"], t["N"]) and los.dtype == bool, f"LoS state shape {los.shape} {los.dtype}")
    ctx.check(np.array_equal(np.asarray(sc.indoor), ins), "reported indoor state")
    ctx.check(not (los & ins[:, None]).any(), "indoor terminal reported in LoS")
    if t["los"] is not None:
        ctx.check(np.array_equal(los, np.broadcast_to(bool(t["los"]) & ~ins[:, None], los.shape)), f"requested LoS={t['los']} not applied: {los.ravel()}, indoor {ins.ravel()}")


def s_samp():
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=gen.elevation(), h=gen.height(),
                                      B=st.sampled_from([24, 60]), N=st.sampled_from([60, 100, 150]), nb=st.sampled_from([1, 1, 2, 3]), again=st.booleans(), pin=st.sampled_from([0., 0., .3, .8]), rs=gen.seeds()))


def fn_samp(case, ctx):
    import tensorflow as tf
    sut.seed(case["rs"])
    sc = gen.mk_scenario(case)
    B, N, S = case["B"], case["N"], case.get("nb", 1)
    r = np.random.default_rng(case["rs"])
    ps = [tables.value(case, True, "LoS_p", a) for a in tables.angle(case["el"])]
    prev = None
    for again in range(1 + case.get("again", False)):
        ins = r.uniform(size=[B, N]) < case["pin"]
        ut = np.concatenate([r.uniform(-500, 500, [B, N, 2]), np.full([B, N, 1], 1.5)], -1).astype(np.float32)
        bs = np.zeros([B, S, 3], np.float32); bs[..., 2] = case["h"]
        bs[..., 0] = np.arange(S) * 3e4
        z = np.zeros([B, N, 3], np.float32)
        sc.set_topology(tf.constant(ut), tf.constant(bs), tf.constant(z), tf.constant(np.zeros_like(bs)), tf.constant(z), tf.constant(ins))
        L = np.asarray(sc.los)
        ctx.check(L.shape == (B, S, N), f"LoS state shape {L.shape}")
        out = ~ins
        ctx.nt(True)
        ctx.label(f"{case['env']} p={ps[0]:.2f}", f"{S} stations", "topology set again" if again else "first topology")
        ctx.check(not (L & ins[:, None]).any(), "indoor terminal in LoS")
        pr = np.asarray(sc.los_probability, float)
        p = next((p for p in ps if np.allclose(pr, p, atol=1e-6)), None)
        ctx.check(p is not None, f"reported LoS probability {pr.ravel()[:2]}, table {ps}")
        n = int(out.sum())
        for s in range(S):
            los = L[:, s]
            k = int((los & out).sum())
            ctx.check(stat.binom_ok(k, n, p), f"{k} of {n} outdoor links in LoS, table probability {p} ({case['env']}, {case['el']} deg)")
            # independence over links: dispersion of per-example and per-terminal counts
            for ax, nm in ((1, "batch example"), (0, "terminal")):
                m = out.sum(ax)
                ok = m > 0
                x = np.sum(((los & out).sum(ax)[ok] - m[ok] * p) ** 2 / (m[ok] * p * (1 - p)))
                if p * (1 - p) * m[ok].min() > 8:
                    ctx.check(stat.chi2_upper_ok(x, int(ok.sum()), 1e-12), f"LoS states not independent across links (per-{nm} counts: chi2 {x:.1f}, df {ok.sum()})")
            # independence of the links of one terminal to different stations, and of two successive topologies
            for o in range(s):
                k2 = int((los & L[:, o] & out).sum())
                ctx.check(stat.binom_ok(k2, n, p * p), f"LoS states of stations {o} and {s} not independent: both LoS {k2} of {n}, p={p}")
            if prev is not None:
                both = out & ~prev[1]
                k2 = int((los & prev[0][:, s] & both).sum())
                ctx.check(stat.binom_ok(k2, int(both.sum()), p * p), f"LoS states of two topologies not independent: both LoS {k2} of {both.sum()}, p={p}")
        prev = (L, ins)


SUBS = [Sub("forced", s_forced, fn_forced, quick=250, thorough=4000, shards=3, weight=1), Sub("sampled", s_samp, fn_samp, quick=240, thorough=4000, shards=4, weight=1.5)]
