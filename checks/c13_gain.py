import numpy as np
from hypothesis import strategies as st
from checks.c12_pathloss import losses
from harness import gen, ref, stat, sut, tables
from harness.core import Sub

RULE = ("ratio: the same seeds and topology are run with the large-scale gains switched off and with a random choice of switches; the element-wise ratio of the "
        "coefficients must be one real positive number per link, equal to the path gain computed from the formulas when shadowing is off. "
        "shadow: >=1200 links, the random part of the gain (in dB) against the tabulated deviation per LoS state. power: mean link power of the unscaled channel. "
        "Non-trivial: several links or antennas, or sampled.")
ASSUMPTIONS = ["ratio cases whose two runs drew different delays (random numbers not shared between switch settings) are counted but not judged",
               "unit average power is judged for isotropic co-polarized elements without the ionospheric rotation"]


def base_s(**kw):
    d = dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=gen.elevation(), h=gen.height(), rs=gen.seeds())
    return st.fixed_dictionaries(dict(d, **kw))


def call(ch, T, fs):
    a, tau = ch(T, fs)
    return np.asarray(a), np.asarray(tau)


def s_ratio():
    arr = st.one_of(st.just(gen.OMNI), gen.array(max_ant=4, patterns=("omni", "38.901")))
    return base_s(t=gen.topo(max_b=3, max_ut=4, stations=True), ut=arr, bs=arr, T=st.integers(1, 2),
                  pl=st.booleans(), sf=st.booleans(), agl=st.sampled_from([False, False, True]))


def gains(case, ctx, pl, sf, T=1, **kw):
    """[B, nb, N] complex ratio of one representative coefficient, its spread over the link, LoS, topology arrays; None if the draws differ"""
    out = []
    for p, s in ((pl, sf), (False, False)):
        sut.seed(case["rs"])
        ch = gen.mk_channel(case, enable_pathloss=p, enable_shadow_fading=s, **kw)
        a = gen.set_topo(ch, case["t"], case["h"])
        h, tau = call(ch, T, 1e6)
        lsp = getattr(ch, "_lsp", None)
        out.append((h, tau, np.asarray(ch._scenario.los), None if lsp is None else np.asarray(lsp.sf, float)))
    (h, tau, los, drawn), (h0, tau0, los0, _) = out
    ctx.check(h.shape == h0.shape and tau.shape == tau0.shape, f"shapes {h.shape}, {tau.shape} with gains, {h0.shape}, {tau0.shape} without")
    if not np.array_equal(tau, tau0) or not np.array_equal(los, los0):
        return None
    # [B, rx, rxant, tx, txant, path, T] -> [B, rx, tx, ...]
    mv = lambda v: np.moveaxis(v, 3, 2).reshape(v.shape[0], v.shape[1], v.shape[3], -1).astype(complex)
    g, g0 = mv(h), mv(h0)
    if case["dir"] == "downlink":
        g, g0 = np.swapaxes(g, 1, 2), np.swapaxes(g0, 1, 2)
    r = np.sum(g * np.conj(g0), -1) / np.sum(np.abs(g0) ** 2, -1)           # least squares
    err = np.abs(g - r[..., None] * g0).max(-1) / (np.abs(r) * np.abs(g0).max(-1))
    return r, err, los, a, drawn


def fn_ratio(case, ctx):
    res = gains(case, ctx, case["pl"], case["sf"], case["T"], always_generate_lsp=case["agl"])
    if res is None:
        ctx.label("not coupled")
        return
    r, err, los, a, drawn = res
    ctx.nt(los.size > 1 or max(gen.num_ant(case["ut"]), gen.num_ant(case["bs"])) > 1)
    ctx.label(f"pathloss {case['pl']} shadowing {case['sf']}", case["dir"])
    ctx.check(np.all(np.isfinite(r)), "gain not finite")
    ctx.check(np.all(err < 1e-4) and np.all(np.abs(r.imag) < 1e-4 * np.abs(r)) and np.all(r.real > 0),
              lambda: f"coefficients are not scaled by one positive number per link: spread {err.max():.2e}, gain {r.ravel()[int(np.argmax(err))]}")
    db = 20 * np.log10(np.abs(r))
    want = [np.zeros(los.shape)]
    if case["pl"]:
        d3 = ref.slant_range(a["bs_loc"][..., 2].astype(float), case["el"])[:, :, None] * np.ones(los.shape)
        fs, base, g, (s0, s1) = losses(case, {}, d3, los, case["el"])
        want = [-(b + g + (s0 + s1) / 2) for b in base]
    if not case["sf"]:
        ctx.check(any(np.all(np.abs(db - w) < 5e-3) for w in want),
                  lambda: f"gain {db.ravel()[:5]} dB, expected {want[0].ravel()[:5]} dB (path loss {case['pl']}, no shadowing; LoS {los.ravel()[:5]})")
    else:
        if not case["pl"] and not case["agl"] and drawn is not None and drawn.shape == los.shape:
            # every link by the shadow fading that was drawn for it
            ctx.label("drawn shadowing known")
            ctx.close(db, 10 * np.log10(drawn), "gain of each link against its own shadow fading [dB]", 1e-4, 5e-3)
        sd = tables.per_link(case, los, "sigmaSF")
        ctx.check(any(np.all(np.abs(db - w) < 12 * sd + .05) for w in want), lambda: f"gain {db.ravel()[:5]} dB, path gain {want[0].ravel()[:5]} dB, shadowing deviation {sd.ravel()[:5]}")


NOTIE = st.one_of(st.sampled_from([10., 20., 40., 60., 80., 90.]), gen.elevation().map(lambda e: e if len(tables.angle(e)) == 1 else e + .5))


def big(indoor=(0,), los=(None, True, False)):
    return st.fixed_dictionaries(dict(B=st.just(150), N=st.just(8), ts=gen.seeds(), spread=st.just(3e5), off=st.just(0.), vmax=st.just(0.), indoor=st.sampled_from(indoor),
                                      orient=st.just(False), los=st.sampled_from(los)))


def s_shadow():
    return base_s(t=big(), pl=st.booleans()).flatmap(lambda c: NOTIE.map(lambda e: dict(c, el=e)))


def fn_shadow(case, ctx):
    res = gains(case, ctx, case["pl"], True)
    if res is None:
        ctx.label("not coupled")
        return
    r, err, los, a, _ = res
    ctx.nt()
    db = 20 * np.log10(np.abs(r))
    if case["pl"]:
        d3 = ref.slant_range(a["bs_loc"][..., 2].astype(float), case["el"])[:, :, None] * np.ones(los.shape)
        fs, base, g, (s0, s1) = losses(case, {}, d3, los, case["el"])
        db = db + base[0] + g + (s0 + s1) / 2
    for s_ in (True, False):
        sd = tables.value(case, s_, "sigmaSF")
        if sd < .05:
            continue
        # terminals are hundreds of kilometres apart: draws are independent
        v = db[los == s_]
        if v.size < 30:
            continue
        nm = f"{'LoS' if s_ else 'NLoS'} shadowing of the gain"
        ctx.label(f"pathloss {case['pl']}")
        twice = v.size * np.mean(v ** 2) / (2 * sd ** 2)
        if not stat.std_ok(v, 0, sd):
            key = "shadowing-applied-twice" if case["pl"] and stat.chi2_ok(twice, v.size) else None
            ctx.fail(f"{nm}: deviation {v.std():.2f} dB over {v.size} links, table {sd} dB (path loss {'on' if case['pl'] else 'off'})", key)
        ctx.check(stat.mean_ok(v, 0, sd * (2 ** .5 if case["pl"] else 1), 6e-3), f"{nm}: mean {v.mean():.2f} dB over {v.size} links, deviation {sd}")


def s_power():
    return base_s(t=big(), agl=st.booleans()).map(lambda c: dict(c, h=c["h"] if c["fc"] > 19e9 else min(c["h"], 5e5)))


def fn_power(case, ctx):
    sut.seed(case["rs"])
    ch = gen.mk_channel(case, enable_pathloss=False, enable_shadow_fading=False, always_generate_lsp=case["agl"])
    gen.set_topo(ch, case["t"], case["h"])
    h, _ = call(ch, 1, 1.)
    los = np.asarray(ch._scenario.los)
    p = np.sum(np.abs(h.astype(complex)) ** 2, axis=(2, 4, 5, 6))           # [B, rx, tx]
    p = np.swapaxes(p, 1, 2) if case["dir"] == "downlink" else p            # [B, station, terminal]
    ctx.nt()
    for s_ in (True, False):
        v = p[los == s_]
        if v.size < 200:
            continue
        nm = "LoS" if s_ else "NLoS"
        ctx.label(nm)
        # given the rays a link's power has mean 1 and variance at most 1; terminals draw their phases independently
        ctx.check(abs(v.mean() - 1) < 6.5 * max(1., v.std()) / np.sqrt(v.size) + .01, f"mean power of {v.size} {nm} links without large-scale gains is {v.mean():.3f}")


SUBS = [Sub("ratio", s_ratio, fn_ratio, quick=120, thorough=2500, shards=5, weight=6), Sub("shadow", s_shadow, fn_shadow, quick=24, thorough=500, shards=3, weight=4),
        Sub("power", s_power, fn_power, quick=24, thorough=500, shards=2, weight=3)]
