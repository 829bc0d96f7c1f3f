import numpy as np
from hypothesis import strategies as st
from harness import gen, ref, stat, sut, tables
from harness.core import Sub

RULE = ("components: a random environment, direction, carrier, elevation, atmosphere (pressure, temperature, water vapour, humidity, ground antenna), topology "
        "(several stations, mixed heights, indoor and LoS states) and shadowing switch; every loss component is recomputed in double precision from the formulas. "
        "shadowing: >=2000 links, mean, deviation and distribution of the random part per LoS state. Non-trivial: mixed LoS states, or several heights, or sampled.")
ASSUMPTIONS = ["gas: ITU-R P.676-5 (22a, 23a) specific attenuations times equivalent heights over sin(elevation); tropospheric scintillation: ITU-R P.618 at 0.01 % of time, "
               "zero when the antenna averaging factor has no real value; ionospheric: 1.1 dB at 4 GHz scaled by f^-1.5 over sqrt(2); no latitude rule is judged",
               "building entry loss is documented as not modelled (zero)"]


def gas(f, T, p, rho, el):
    """total gaseous attenuation [dB] of the slant path"""
    rt, rp = 288. / T, p / 1013.
    n1 = .955 * rp * rt ** .68 + .006 * rho
    n2 = .735 * rp * rt ** .5 + .0353 * rt ** 4 * rho
    g = lambda fi: 1 + ((f - fi) / (f + fi)) ** 2
    E = lambda a: np.exp(a * (1 - rt))
    lines = [(3.98 * n1 * E(2.23), 22.235, 9.42 * n1 ** 2, g(22.)), (11.96 * n1 * E(.7), 183.31, 11.14 * n1 ** 2, 1), (.081 * n1 * E(6.44), 321.226, 6.29 * n1 ** 2, 1),
             (3.66 * n1 * E(1.6), 325.153, 9.22 * n1 ** 2, 1), (25.37 * n1 * E(1.09), 380., 0, 1), (17.4 * n1 * E(1.46), 448., 0, 1),
             (844.6 * n1 * E(.17), 557., 0, g(557.)), (290. * n1 * E(.41), 752., 0, g(752.)), (83328. * n2 * E(.99), 1780., 0, g(1780.))]
    gw = sum(a / ((f - f0) ** 2 + w) * k for a, f0, w, k in lines) * f ** 2 * rt ** 2.5 * rho * 1e-4
    s = 1.013 / (1 + np.exp(-8.1 * (rp - .57)))
    hw = 1.66 * (1 + 1.39 * s / ((f - 22.235) ** 2 + 2.56 * s) + 3.37 * s / ((f - 183.31) ** 2 + 4.69 * s) + 1.5 * s / ((f - 325.1) ** 2 + 2.89 * s))
    xi = lambda a, b, c, d: rp ** a * rt ** b * np.exp(c * (1 - rp) + d * (1 - rt))
    x1, x2, x3 = xi(.0717, -1.8132, .0156, -1.6515), xi(.5146, -4.6368, -.1921, -5.7416), xi(.3414, -6.5851, .2130, -8.5854)
    go = (7.2 * rt ** 2.8 / (f ** 2 + .34 * rp ** 2 * rt ** 1.6) + .62 * x3 / ((54 - f) ** (1.16 * x1) + .83 * x2)) * f ** 2 * rp ** 2 * 1e-3
    t1 = 4.64 / (1 + .066 * rp ** -2.3) * np.exp(-((f - 59.7) / (2.87 + 12.4 * np.exp(-7.9 * rp))) ** 2)
    t2 = .14 * np.exp(2.12 * rp) / ((f - 118.75) ** 2 + .031 * np.exp(2.2 * rp))
    t3 = .0114 / (1 + .14 * rp ** -2.6) * f * (-.0247 + 1e-4 * f + 1.61e-6 * f ** 2) / (1 - .0169 * f + 4.1e-5 * f ** 2 + 3.2e-7 * f ** 3)
    ho = 6.1 / (1 + .17 * rp ** -1.1) * (1 + t1 + t2 + t3)
    return (gw * hw + go * ho) / np.sin(np.radians(el))


def scint(f, T, H, D, eff, el):
    """(lowest, highest) acceptable scintillation loss [dB]"""
    if f < 6:
        v = 1.1 * (f / 4) ** -1.5 / np.sqrt(2)
        return v, v
    t = T - 273.
    es = 6.1121 * np.exp(17.502 * t / (t + 240.97))
    ref_ = 3.6e-3 + 3732 * H * es / (t + 273.) ** 2 * 1e-4
    s = np.sin(np.radians(el))
    L = 2000. / (np.sqrt(s ** 2 + 2.35e-4) + s)
    x = 1.22 * eff * D ** 2 * f / L
    arg = 3.86 * (x ** 2 + 1) ** (11 / 12) * np.sin(11 / 6 * np.arctan(1 / x)) - 7.08 * x ** (5 / 6)
    e = 3e-6 * (4 + 8 * x ** (11 / 6) + 7.08 * x ** (5 / 6))
    lp = np.log10(.01)
    a = -.061 * lp ** 3 + .072 * lp ** 2 - 1.71 * lp + 3
    return tuple(a * ref_ * f ** (7 / 12) * np.sqrt(max(v, 0.)) / s ** 1.2 for v in (arg - e, arg + e))


DEF = dict(atmospheric_pressure=1020., temperature=273., water_vapor_density=7.5, relative_humidity=50., diameter_earth_antenna=3.6, antenna_efficiency=.5)
ATM = st.one_of(st.just({}), st.just({}), st.fixed_dictionaries({}, optional=dict(
    atmospheric_pressure=gen.fl(850., 1060.), temperature=gen.fl(235., 318.), water_vapor_density=gen.fl(0., 30.), relative_humidity=gen.fl(0., 100.),
    diameter_earth_antenna=st.one_of(gen.fl(.1, 5.), gen.fl(.1, 40.)), antenna_efficiency=gen.fl(.2, 1.))))
ENV_KW = tuple(DEF)


def losses(case, atm, d3, los, el):
    """expected (fspl, base without shadowing per candidate table angle, gas, (scint lo, hi))"""
    f = case["fc"] / 1e9
    q = dict(DEF, **atm)
    fs = 32.45 + 20 * np.log10(f) + 20 * np.log10(d3)
    base = [fs + np.where(los, 0., tables.value(case, False, "CL", a)) for a in tables.angle(el)]
    return fs, base, gas(f, q["temperature"], q["atmospheric_pressure"], q["water_vapor_density"], el), \
        scint(f, q["temperature"], q["relative_humidity"], q["diameter_earth_antenna"], q["antenna_efficiency"], el)


def s_comp():
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=gen.elevation(), h=gen.height(),
                                      t=gen.topo(max_b=3, max_ut=5, stations=True), sf=st.booleans(), pl=st.booleans(), atm=ATM, rs=gen.seeds()))


def components(ctx, case, sc, a, atm, sf, slack=0.):
    m = sut.load()
    los = np.asarray(sc.los)
    h = a["bs_loc"][..., 2].astype(float)
    d3 = ref.slant_range(h, case["el"])[:, :, None] * np.ones(los.shape)
    fs, base, g, (s0, s1) = losses(case, atm, d3, los, case["el"])
    sh = los.shape
    get = lambda n: np.asarray(getattr(sc, n + "_pathloss"), float)
    ctx.close(np.broadcast_to(get("free_space"), sh), fs, "free-space loss [dB]", 0, 2e-3)
    pb = get("basic")
    if not sf:
        ok = [np.all(np.abs(pb - b) < 2e-3) for b in base] if pb.shape == sh else [False]
        ctx.check(any(ok), lambda: f"basic loss without shadowing {pb.ravel()[:4]}, free space + clutter {base[0].ravel()[:4]}, LoS {los.ravel()[:4]}")
    else:
        sd = tables.per_link(case, los, "sigmaSF")
        ok = [np.all(np.abs(pb - b) < 8 * np.maximum(sd, 1e-3) + 2e-3) for b in base] if pb.shape == sh else [False]
        ctx.check(any(ok), lambda: f"basic loss {pb.ravel()[:4]} more than 8 deviations from free space + clutter {base[0].ravel()[:4]}")
    ctx.close(get("gas"), np.full(sh, g), "gas loss [dB]", 1e-3, 1e-5)
    sc_ = get("scintillation")
    ctx.check(sc_.shape == sh and np.all((sc_ >= s0 * .999 - 1e-5) & (sc_ <= s1 * 1.001 + 1e-5)), lambda: f"scintillation loss {sc_.ravel()[:3]} dB, expected {s0:.5f}..{s1:.5f}")
    ctx.close(get("entry"), np.zeros(sh), "entry loss", 0, 0)
    tot = np.asarray(m.LSPGenerator(sc).sample_pathloss(), float)
    ctx.close(tot, pb + get("gas") + sc_ + get("entry"), "total loss is the sum of its components", 1e-6, 1e-4)
    for n, v in (("gas", get("gas")), ("scintillation", sc_), ("free-space", get("free_space"))):
        ctx.check(np.all(v >= 0), f"negative {n} loss")
    return los


def fn_comp(case, ctx):
    sut.seed(case["rs"])
    sc = gen.mk_scenario(case, enable_shadow_fading=case["sf"], enable_pathloss=case["pl"])
    a = gen.set_topo(sc, case["t"], case["h"], **case["atm"])
    los = components(ctx, case, sc, a, case["atm"], case["sf"])
    ctx.nt((los.any() and not los.all()) or np.unique(a["bs_loc"][..., 2]).size > 1)
    ctx.label("shadowing on" if case["sf"] else "shadowing off", "Ka" if case["fc"] > 6e9 else "S", "custom atmosphere" if case["atm"] else "default atmosphere")


def s_shadow():
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(),
                                      el=st.one_of(st.sampled_from([10., 20., 30., 40., 50., 60., 70., 80., 90.]), gen.elevation().map(lambda e: e if len(tables.angle(e)) == 1 else e + .5)),
                                      h=gen.height(), N=st.sampled_from([40, 80]), los=st.sampled_from([None, None, True, False]), pin=st.sampled_from([0., .3]), rs=gen.seeds()))


def fn_shadow(case, ctx):
    import tensorflow as tf
    sut.seed(case["rs"])
    sc = gen.mk_scenario(case, enable_shadow_fading=True)
    r = np.random.default_rng(case["rs"])
    B, N = 60, case["N"]
    f = lambda v: tf.constant(np.asarray(v, np.float32))
    z = np.zeros([B, N, 3])
    ins = r.uniform(size=[B, N]) < case["pin"]
    bs = np.zeros([B, 1, 3]); bs[..., 2] = case["h"]
    sc.set_topology(f(r.uniform(-1e3, 1e3, [B, N, 3])), f(bs), f(z), f(z[:, :1]), f(z), tf.constant(ins), **({} if case["los"] is None else dict(los=case["los"])))
    los = np.asarray(sc.los)
    x = np.asarray(sc.basic_pathloss, float) - np.asarray(sc.free_space_pathloss, float) - np.where(los, 0, tables.value(case, False, "CL"))
    ctx.nt(True)
    for s_ in (True, False):
        v, sd = x[los == s_], tables.value(case, s_, "sigmaSF")
        if v.size < 200:
            continue
        nm = "LoS" if s_ else "NLoS"
        ctx.label(nm)
        if sd < 1e-2:
            ctx.check(np.all(np.abs(v) < 8 * sd + 2e-3), f"{nm} shadowing {np.abs(v).max()} dB with tabulated deviation {sd}")
            continue
        ctx.check(stat.mean_ok(v, 0, sd, 1e-3), f"{nm} shadowing mean {v.mean():.3f} dB over {v.size} links (deviation {sd})")
        ctx.check(stat.std_ok(v, 0, sd) or abs(v.std() / sd - 1) < 2e-3, f"{nm} shadowing deviation {v.std():.3f} dB over {v.size} links, table {sd}")
        from scipy import stats
        ctx.check(stat.ks_ok(v, lambda q: stats.norm.cdf(q, 0, sd)), f"{nm} shadowing not normal")
    # links of different examples and terminals draw separately
    ctx.check(np.unique(np.round(x, 5)).size > .9 * min(x.size, 3000) or tables.value(case, True, "sigmaSF") < 1e-2, "shadowing values repeat across links")


def s_upd():
    one = st.fixed_dictionaries({}, optional=dict(
        atmospheric_pressure=gen.fl(850., 1060.), temperature=gen.fl(235., 318.), water_vapor_density=gen.fl(0., 30.), relative_humidity=gen.fl(0., 100.),
        diameter_earth_antenna=st.one_of(gen.fl(.1, 5.), gen.fl(.1, 40.)), antenna_efficiency=gen.fl(.2, 1.)))
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=gen.elevation(), h=gen.height(),
                                      t=gen.topo(max_b=2, max_ut=3, stations=True), pl=st.booleans(), rs=gen.seeds(),
                                      steps=st.lists(st.tuples(one, st.booleans()), min_size=1, max_size=4)))


def fn_upd(case, ctx):
    """the losses follow environment parameters changed one at a time, with and without moving the terminals"""
    import tensorflow as tf
    sut.seed(case["rs"])
    sc = gen.mk_scenario(case, enable_shadow_fading=False, enable_pathloss=case["pl"])
    a = gen.set_topo(sc, case["t"], case["h"])
    atm = {}
    for kw, move in case["steps"]:
        atm.update(kw)
        if move:
            a["ut_loc"] = (a["ut_loc"] + np.float32([3., -2., 0.])).astype(np.float32)
        ctx.label("moved" if move else "environment only")
        ctx.nt(bool(kw))
        sc.set_topology(**(dict(ut_loc=tf.constant(a["ut_loc"])) if move else {}), **kw)
        components(ctx, case, sc, a, atm, False)


SUBS = [Sub("updates", s_upd, fn_upd, quick=120, thorough=2500, shards=2, weight=4), Sub("components", s_comp, fn_comp, quick=400, thorough=6000, shards=4, weight=3), Sub("shadowing", s_shadow, fn_shadow, quick=120, thorough=2500, shards=3, weight=2)]
