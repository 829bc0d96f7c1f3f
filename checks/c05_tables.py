import numpy as np
from hypothesis import strategies as st
from harness import gen, sut, tables
from harness.core import Sub

RULE = ("A case is an environment, direction, carrier, elevation (avoiding exact ties between tabulated angles) and a topology "
        "with a LoS mix (indoor patterns, forced or sampled states). Every tabulated parameter, cluster counts, log-means and "
        "deviations are compared with an independent golden copy of the tables. Non-trivial: both LoS and NLoS links present, or elevation off the grid.")
ASSUMPTIONS = ["data/tables.json is a verified copy of the TR 38.811 tables", "elevations exactly half-way between table entries are not judged"]
LSP = ["DS", "ASD", "ASA", "SF", "K", "ZSA", "ZSD"]


def s():
    el = gen.elevation().map(lambda e: e if len(tables.angle(e)) == 1 and abs((e % 10) - 5) > 1e-6 else min(90., e + 1.))
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=el,
                                      h=gen.height(), t=gen.topo(max_b=3, max_ut=5, stations=True), rs=gen.seeds()))


def fn(case, ctx):
    sut.seed(case["rs"])
    sc = gen.mk_scenario(case)
    gen.set_topo(sc, case["t"], case["h"])
    los = np.asarray(sc.los)
    ctx.nt((los.any() and not los.all()) or case["el"] % 10 != 0)
    ctx.label("LoS mix" if los.any() and not los.all() else "uniform state", tables.band(case["fc"]) + " " + case["dir"] + " " + case["env"])
    ang = tables.angle(case["el"])[0]
    for nme in tables.NAMES:
        want = tables.per_link(case, los, nme)
        got = np.asarray(sc.get_param(nme), float)
        if np.isinf(want).any():
            ctx.check(got.shape == want.shape and np.all((got == want) | (got <= -50)), f"parameter {nme}: {got.ravel()[:4]}, table {want.ravel()[:4]}")
        else:
            ctx.close(got, want, f"parameter {nme} at {case['el']} deg ({case['env']}, {case['dir']}, {case['fc']/1e9:.2f} GHz)", 1e-5, 1e-9)
    nl, nn = tables.value(case, True, "numClusters"), tables.value(case, False, "numClusters")
    ctx.check(int(sc.num_clusters_los) == nl, f"LoS clusters {int(sc.num_clusters_los)}, table {nl}")
    ctx.check(int(sc.num_clusters_nlos) == nn, f"NLoS clusters {int(sc.num_clusters_nlos)}, table {nn}")
    ctx.check(int(sc.num_clusters_max) == max(nl, nn), f"maximum clusters {int(sc.num_clusters_max)}, tables {nl}/{nn}")
    ctx.check(int(sc.rays_per_cluster) == 20, "rays per cluster")
    mean, std = np.asarray(sc.lsp_log_mean, float), np.asarray(sc.lsp_log_std, float)
    ctx.check(mean.shape == los.shape + (7,) and std.shape == los.shape + (7,), f"log-mean shape {mean.shape}")
    for k, l in enumerate(LSP):
        sc_ = 10. if l in ("SF", "K") else 1.
        wm = 0 * los if l == "SF" else tables.per_link(case, los, "mu" + l) / sc_
        ws = tables.per_link(case, los, "sigma" + l) / sc_
        g = mean[..., k]
        inf = np.isinf(wm)
        ctx.check(np.all(g[inf] <= -50), f"log-mean of {l}: {g[inf][:3]}, table -inf")
        ctx.close(g[~inf], wm[~inf], f"log-mean of {l}", 1e-5, 1e-7)
        ctx.close(std[..., k], ws, f"log-std of {l}", 1e-5, 1e-7)


def fn_indep(case, ctx):
    """values of links in a mixed batch equal those of a batch with the same state only"""
    sut.seed(case["rs"])
    sc = gen.mk_scenario(case)
    t = dict(case["t"], indoor=1, los=True)
    a = gen.set_topo(sc, t, case["h"])
    los = np.asarray(sc.los)
    ctx.nt(los.any() and not los.all())
    ctx.check(np.array_equal(los, np.broadcast_to(~a["in_state"][:, None], los.shape)), "forced LoS / indoor state")
    got = {n: np.asarray(sc.get_param(n), float) for n in case["names"]}
    ms = np.asarray(sc.lsp_log_mean, float), np.asarray(sc.lsp_log_std, float)
    for state, t2 in ((True, dict(t, indoor=0)), (False, dict(t, indoor=2))):
        s2 = gen.mk_scenario(case)
        gen.set_topo(s2, t2, case["h"])
        w = los == state
        for n in case["names"]:
            ctx.close(got[n][w], np.asarray(s2.get_param(n), float)[w], f"{n} of a {'LoS' if state else 'NLoS'} link in a mixed batch", 0, 0)
        with np.errstate(all="ignore"):
            for g, q in zip(ms, (s2.lsp_log_mean, s2.lsp_log_std)):
                ctx.check(np.array_equal(g[w], np.asarray(q, float)[w]), "log-mean/std of a link depend on other links' states")


def s_indep():
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=gen.elevation(),
                                      h=gen.height(), t=gen.topo(max_b=2, max_ut=4), rs=gen.seeds(),
                                      names=st.lists(st.sampled_from(tables.NAMES), min_size=3, max_size=8, unique=True)))


def all_tables():
    return [dict(env=e, dir=d, fc=f, el=float(a), h=6e5, rs=1, t=dict(B=2, N=3, ts=5, spread=100., off=0., vmax=0., indoor=1, orient=False, los=True))
            for e in gen.ENVS for d in gen.DIRS for f in (2e9, 30e9) for a in tables.ANG]


SUBS = [Sub("tables", s, fn, quick=400, thorough=6000, shards=6, weight=10),
        Sub("every_entry", None, fn, quick=108, thorough=108, fixed=all_tables(), weight=10),
        Sub("mixed_batch", s_indep, fn_indep, quick=60, thorough=1000, shards=2, weight=20)]
