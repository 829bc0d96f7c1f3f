"""Runs the ray generator on chosen large-scale parameters."""
import numpy as np
from hypothesis import strategies as st

from . import gen, sut, tables


def spr(hi):
    return st.one_of(gen.fl(.1, 3.), gen.fl(.1, hi), st.just(hi))


def elev_notie():
    return gen.elevation().map(lambda e: e if len(tables.angle(e)) == 1 else e + 0.5)


def rays_of(case, ctx, **spreads):
    """scenario, LoS mask, dict of the LSP arrays, dict of the ray arrays"""
    import tensorflow as tf
    m = sut.load()
    sut.seed(case["rs"])
    sc = gen.mk_scenario(case)
    t = dict(case["t"], B=case["B"])
    a = gen.set_topo(sc, t, case["h"])
    los = np.asarray(sc.los)
    r = np.random.default_rng(case["rs"])
    L = dict(ds=10 ** np.clip(case["ds"] + case["dspread"] * r.standard_normal(los.shape), -11, -4),
             k_factor=10 ** (np.clip(case["k"] + case["kspread"] * r.standard_normal(los.shape), -20, 40) / 10))
    for n in ("asa", "asd", "zsa", "zsd"):
        L[n] = spreads.get(n, 5.) * np.exp(case.get("aspread", .2) * r.uniform(-1, 1, los.shape))
    L["sf"] = np.ones(los.shape)
    L = {k: v.astype(np.float32) for k, v in L.items()}
    lsp = m.LSP(**{k: tf.constant(v) for k, v in L.items()})
    g = m.RaysGenerator(sc)
    g.topology_updated_callback()
    rays = g(lsp)
    R = {k: np.asarray(getattr(rays, k)).astype(float) for k in ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr")}
    return sc, a, los, {k: v.astype(float) for k, v in L.items()}, R
