import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss
from harness import gen, raysut, stat, sut, tables
from harness.core import Sub

RULE = ("A case is an environment, direction, carrier, elevation, station height, a LoS/NLoS/indoor mix over a batch of links and the delay spreads "
        "and K-factors handed to the ray generator (extremes included). Non-trivial: links of different states or of different delay spreads in one batch.")
ASSUMPTIONS = ["laws are judged on 600-4000 links per case at false-alarm probability < 1e-8",
               "delay spreads between 0.01 ns and 100 us, K-factors between -20 and 40 dB"]


def s(maxb, n):
    return st.fixed_dictionaries(dict(
        env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=raysut.elev_notie(), h=gen.height(),
        t=gen.topo(max_b=1, max_ut=n, stations=True, los=(None, True, True, False)), B=st.integers(1, maxb), rs=gen.seeds(),
        ds=st.one_of(gen.fl(-11., -4.), st.sampled_from([-7., -8.])), dspread=st.sampled_from([0., 0.5, 1.5]),
        k=gen.fl(-10., 30.), kspread=st.sampled_from([0., 5., 10.])))


def c_tau(k):
    kd = 10 * np.log10(k)
    return .7705 - .0433 * kd + .0002 * kd ** 2 + .000017 * kd ** 3


def fn_inv(case, ctx):
    sc, a, los, L, R = raysut.rays_of(case, ctx)
    n = {s: int(tables.value(case, s, "numClusters")) for s in (True, False)}
    N = max(n.values())
    ctx.nt(case["dspread"] > 0 or (los.any() and not los.all()))
    ctx.label("LoS mix" if los.any() and not los.all() else "one state")
    d, p = R["delays"], R["powers"]
    ctx.check(d.shape == los.shape + (N,) and p.shape == d.shape, f"shape {d.shape} / {p.shape}, expected {los.shape + (N,)}")
    for k in ("aoa", "aod", "zoa", "zod", "xpr"):
        ctx.check(R[k].shape == los.shape + (N, 20), f"{k}: shape {R[k].shape}")
    ctx.check(np.all(np.isfinite(d)) and np.all(np.isfinite(p)), "non-finite delay or power")
    ctx.check(np.all(d[..., 0] == 0), f"first delay {d[..., 0].max()} not zero")
    ctx.check(np.all(np.diff(d, axis=-1) >= 0), "delays decrease")
    ctx.check(np.all(p >= 0), "negative power")
    ctx.check(np.all(np.abs(p.sum(-1) - 1) < 1e-5), f"powers sum to {p.sum(-1).ravel()[:3]}")
    nc = np.where(los, n[True], n[False])[..., None]
    used = np.arange(N) < nc
    ctx.check(np.all(p[~used] == 0), "unused cluster carries power")
    ctx.check(np.all(p[used] > 0), "used cluster without power")
    # delays bounded by the law (uniform draw in [1e-6, 1])
    rt = tables.per_link(case, los, "rTau")[..., None]
    tp = d * np.where(los, c_tau(L["k_factor"]), 1.)[..., None]
    ctx.check(np.all((tp <= 13.9 * rt * L["ds"][..., None])[used]), "delay beyond the exponential law's range")


def fn_law(case, ctx):
    sc, a, los, L, R = raysut.rays_of(case, ctx)
    d, p = R["delays"], R["powers"]
    ctx.nt(case["dspread"] > 0 or (los.any() and not los.all()))
    for state in (True, False):
        w = los == state
        if w.sum() < 50:
            continue
        ctx.label("LoS" if state else "NLoS")
        n = int(tables.value(case, state, "numClusters"))
        rt, ze = tables.value(case, state, "rTau"), tables.value(case, state, "zeta")
        ct = c_tau(L["k_factor"])[w] if state else np.ones(w.sum())
        x = d[w][:, :n] * ct[:, None] / (rt * L["ds"][w][:, None])      # sorted, shifted Exp(1)
        what = f"({case['env']}, {case['dir']}, {case['el']} deg, {'LoS' if state else 'NLoS'})"
        for i in range(1, n):
            sp = (x[:, i] - x[:, i - 1]) * (n - i)
            ctx.check(stat.ks_ok(sp, lambda v: 1 - np.exp(-v)), f"delay spacing {i} is not exponential of delay spread x rTau {what}: mean {sp.mean():.3f}")
        y = 10 * np.log10(p[w][:, :n]) + 10 / np.log(10) * x * (rt - 1)
        y = y - y.mean(1, keepdims=True)                                # centred shadowing
        S = (y ** 2).sum() / ze ** 2
        ctx.check(stat.chi2_ok(S, w.sum() * (n - 1)), f"per-cluster shadowing deviation {ze * np.sqrt(S / (w.sum() * (n - 1))):.3f} dB, table {ze} {what}")
        for i in range(n):
            ctx.check(stat.mean_ok(y[:, i], 0, ze, .01), f"cluster {i}: mean deviation from the decay law {y[:, i].mean():.3f} dB {what}")
            ctx.check(stat.ks_ok(y[:, i], ss.norm(0, ze * np.sqrt(1 - 1 / n)).cdf), f"cluster {i}: shadowing is not normal in dB {what}")
            if i:
                c = np.corrcoef(y[:, i], x[:, i])[0, 1]
                ctx.check(abs(c) < stat.corr_bound(w.sum()) * 1.2, f"power law residual correlated with the delay ({c:.3f}) {what}")
        # different links: their shadowing and their largest delay are independent
        for q, nm in ((y[:, 0] - y[:, 1], "cluster shadowing"), (x[:, n - 1], "largest delay")):
            f = np.full(los.shape, np.nan); f[w] = q
            for ax, of in enumerate(("batch examples", "stations", "terminals")):
                u, v = f.take(range(1, f.shape[ax]), ax), f.take(range(f.shape[ax] - 1), ax)
                both = np.isfinite(u) & np.isfinite(v)
                if both.sum() > 50:
                    c = np.corrcoef(u[both], v[both])[0, 1]
                    ctx.check(abs(c) < 1.3 * stat.corr_bound(both.sum()), f"{nm} of different {of} correlated ({c:.3f}) {what}")


def s_law():
    return s(1, 2).flatmap(lambda c: st.sampled_from([600, 1500, 3000]).map(lambda b: dict(c, B=b)))


def fn_redraw(case, ctx):
    """two draws differ, another link's parameters do not matter"""
    import tensorflow as tf
    sc, a, los, L, R = raysut.rays_of(case, ctx)
    c2 = dict(case)
    sc, a, los2, L2, R2 = raysut.rays_of(c2, ctx)
    ctx.check(np.array_equal(los, los2) and all(np.array_equal(R[k], R2[k]) for k in R), "same seeds, different rays")
    ctx.nt(los.size > 1)
    # delays scale with the link's own delay spread and nothing else: halve the spread of one link only
    m = sut.load()
    sut.seed(case["rs"])
    sc = gen.mk_scenario(case)
    gen.set_topo(sc, dict(case["t"], B=case["B"]), case["h"])
    ds = L["ds"].copy()
    i = tuple(int(v) for v in np.unravel_index(case["rs"] % ds.size, ds.shape))
    ds[i] *= .25
    f = lambda v: tf.constant(np.asarray(v, np.float32))
    lsp = m.LSP(ds=f(ds), asd=f(L["asd"]), asa=f(L["asa"]), sf=f(L["sf"]), k_factor=f(L["k_factor"]), zsa=f(L["zsa"]), zsd=f(L["zsd"]))
    g = m.RaysGenerator(sc); g.topology_updated_callback()
    r3 = g(lsp)
    d3, p3 = np.asarray(r3.delays, float), np.asarray(r3.powers, float)
    o = np.ones(ds.shape, bool); o[i] = False
    n = int(tables.value(case, bool(los[i]), "numClusters"))
    ctx.close(d3[o], R["delays"][o], "delays of the other links after changing one link's delay spread", 1e-5, 1e-16)
    ctx.close(p3[o], R["powers"][o], "powers of the other links after changing one link's delay spread", 1e-5, 1e-9)
    ctx.close(d3[i][:n], .25 * R["delays"][i][:n], "delays after scaling the link's delay spread by 1/4", 1e-4, 1e-6 * L["ds"][i])
    ctx.close(p3[i], R["powers"][i], "powers after scaling delay spread and delays together", 1e-3, 1e-6)


SUBS = [Sub("invariants", lambda: s(40, 6), fn_inv, quick=300, thorough=5000, shards=5, weight=5),
        Sub("laws", s_law, fn_law, quick=250, thorough=4000, shards=5, weight=6),
        Sub("own_parameters", lambda: s(4, 4), fn_redraw, quick=100, thorough=1500, shards=3, weight=10)]
