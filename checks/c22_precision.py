import contextlib
import numpy as np
from hypothesis import strategies as st
from checks import c10_coefficients as c10, c14_response as c14
from harness import gen, ref, sut, tables
from harness.core import Sub

RULE = ("channel: a random environment, direction, band, arrays, heights, switches, topology (given or generated), precision (an argument or the global setting), eager or compiled; types of coefficients, "
        "delays, large-scale parameters, rays and every public floating property. scenario: the deterministic properties of one topology in both precisions. response: the coefficients at each precision "
        "against the coefficient equations fed with the draws of that call. pieces: arrays, elements, topology generation, response conversions and helpers in both precisions. tdl: types and profile in both precisions. "
        "coefficients, quantities, numeric: double-precision results against float64 formulas to (nearly) double accuracy. Non-trivial: double precision, or both precisions compared.")
ASSUMPTIONS = ["arguments are given in the requested precision (as the documentation asks)", "numbers given as Python floats may pass through single precision: agreement is to single-precision accuracy",
               "draws of the two precisions differ, so random quantities are compared through the equations they enter, not with each other"]
P = {"single": ("float32", "complex64"), "double": ("float64", "complex128")}
SCN = {"DenseUrban": "dur", "Urban": "urb", "SubUrban": "sur"}


def kind(x):
    d = getattr(x, "dtype", None)
    return getattr(d, "name", None)


def typed(ctx, x, prec, what):
    k = kind(x)
    ctx.check(k is not None and (k == P[prec][0] or k == P[prec][1] if k.startswith(("float", "complex")) else True), f"{what} is {k} at {prec} precision")


def public(ctx, obj, prec):
    for n in dir(type(obj)):
        if n.startswith("_") or not isinstance(getattr(type(obj), n), property):
            continue
        try:
            v = getattr(obj, n)
        except (AttributeError, AssertionError):                            # not available in this configuration
            continue
        k = kind(v)
        if k and k.startswith(("float", "complex")):
            ctx.check(k in P[prec], f"{type(obj).__name__}.{n} is {k} at {prec} precision")


@contextlib.contextmanager
def glob(on, prec):
    sut.load()
    import sionna
    old = sionna.phy.config.precision
    try:
        if on:
            sionna.phy.config.precision = prec
        yield None if on else prec
    finally:
        sionna.phy.config.precision = old


def s_chan():
    return st.fixed_dictionaries(dict(
        env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=gen.elevation(), h=gen.height(), ut=gen.array(max_ant=4), bs=gen.array(max_ant=4),
        t=gen.topo(max_b=2, max_ut=3, stations=True), rs=gen.seeds(), prec=st.sampled_from(["double", "double", "single"]), glob=st.booleans(), gen=st.booleans(), pl=st.booleans(), sf=st.booleans(),
        agl=st.booleans(), dop=st.booleans(), graph=st.sampled_from([False, False, True]), T=st.integers(1, 3), fs=st.sampled_from([1e3, 1e6])))


def fn_chan(case, ctx):
    import tensorflow as tf
    prec, t = case["prec"], case["t"]
    r, c = P[prec]
    with glob(case["glob"], prec) as arg:
        sut.seed(case["rs"])
        ch = gen.mk_channel(case, arg, enable_pathloss=case["pl"], enable_shadow_fading=case["sf"], always_generate_lsp=case["agl"], doppler_enabled=case["dop"])
        if case["gen"]:
            topo = sut.utils().gen_single_sector_topology(t["B"], t["N"], SCN[case["env"]], bs_height=case["h"], elevation_angle=case["el"], **({"precision": arg} if arg else {}))
            for x in topo:
                typed(ctx, x, prec, "generated topology")
            ch.set_topology(*topo)
        else:
            gen.set_topo(ch, t, case["h"], tf.dtypes.as_dtype(r))
        with c14.observe(keep=lambda x: x) as log:
            call = (lambda: ch(case["T"], case["fs"]))
            a, tau = (tf.function(call) if case["graph"] else call)()
        for n, v in list(log["rays"].items()) + [(n, log[n]) for n in ("k", "ds", "sf", "phi", "t")]:
            ctx.check(kind(v) == r, f"{n} drawn during the call is {kind(v)} at {prec} precision")
        ctx.nt(prec == "double")
        ctx.label(prec, "global" if case["glob"] else "argument", "compiled" if case["graph"] else "eager", "generated" if case["gen"] else "given")
        ctx.check(kind(a) == c and kind(tau) == r, f"coefficients {kind(a)}, delays {kind(tau)} at {prec} precision")
        ctx.check(np.all(np.isfinite(np.asarray(a).view(r))) and np.all(np.isfinite(np.asarray(tau))), "not finite")
        for o in (ch._scenario, ch._scenario.ut_array, ch._scenario.bs_array):
            public(ctx, o, prec)
        for arr in (ch._scenario.ut_array, ch._scenario.bs_array):
            for e in (arr.ant_pol1,) + ((arr.ant_pol2,) if arr.polarization == "dual" else ()):
                for v in e.field(tf.constant([.3, 1.2], r), tf.constant([.1, -2.], r)):
                    ctx.check(kind(v) == r, f"field pattern is {kind(v)} at {prec} precision")


DET = {"h_ut": 1e-4, "h_bs": 1e-2, "distance_2d": 1e-2, "distance_3d": 4., "matrix_ut_distance_2d": .02, "los_probability": 1e-6, "lsp_log_mean": 1e-4, "lsp_log_std": 1e-5, "zod_offset": 1e-3,
       "basic_pathloss": 1e-2, "gas_pathloss": 1e-4, "scintillation_pathloss": 1e-3, "entry_pathloss": 0, "free_space_pathloss": 1e-2, "carrier_frequency": 0, "lambda_0": 1e-9, "min_2d_in": 1e-3, "max_2d_in": 1e-3,
       "average_street_width": 1e-4, "average_building_height": 1e-4}
ANG = ("los_aod", "los_aoa", "los_zod", "los_zoa")


def s_scn():
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=gen.elevation(), h=gen.height(), rs=gen.seeds(),
                                      t=gen.topo(max_b=3, max_ut=4, stations=True, los=(True, False))))


def fn_scn(case, ctx):
    import tensorflow as tf
    sc = {}
    for p in P:
        sut.seed(case["rs"])
        sc[p] = gen.mk_scenario(case, p, enable_shadow_fading=False)
        gen.set_topo(sc[p], case["t"], case["h"], tf.dtypes.as_dtype(P[p][0]))
        public(ctx, sc[p], p)
    ctx.nt(True)
    ctx.label(case["env"], case["dir"], "%d stations" % case["t"]["nb"])
    get = lambda p, n: np.asarray(getattr(sc[p], n), float)
    for n, at in DET.items():
        ctx.close(get("double", n), get("single", n), n + " at double and single precision", 2e-6 if n != "scintillation_pathloss" else 5e-3, at)
    for n in ANG:
        d = (get("double", n) - get("single", n) + 180) % 360 - 180
        ctx.check(d.shape == get("single", n).shape and np.all(np.abs(d) <= .05), f"{n} differs by {np.abs(d).max():.3g} degrees between the precisions")
    for n in ("num_clusters_los", "num_clusters_nlos", "rays_per_cluster"):
        ctx.check(int(getattr(sc["double"], n)) == int(getattr(sc["single"], n)), n + " differs between the precisions")
    for n in ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities"):
        ctx.check(np.array_equal(get("double", n), get("single", n)), n + " differs between the precisions")
    for n in ("los", "indoor"):
        ctx.check(np.array_equal(get("double", n), get("single", n)), n + " differs between the precisions")


def s_resp():
    arr = gen.array(max_ant=4, patterns=("omni", "38.901", "dlp"))
    return c14.base(arr, t=gen.topo(max_b=2, max_ut=3, stations=True, los=(None, True, True, False)), prec=st.sampled_from(["double", "double", "single"]))


def fn_resp(case, ctx):
    import tensorflow as tf
    sut.seed(case["rs"])
    ch = gen.mk_channel(case, case["prec"], enable_pathloss=False, enable_shadow_fading=False)
    a = gen.set_topo(ch, case["t"], case["h"], tf.dtypes.as_dtype(P[case["prec"]][0]))
    with c14.observe() as log:
        h, tau = ch(1, 1e6)
    ctx.check("phi" in log and "rays" in log, "HARNESS: generators not observed")
    c14.judge(case, ctx, np.asarray(ch._scenario.los), a, log, h, tau)
    ctx.nt(case["prec"] == "double")
    ctx.label(case["prec"])


def s_piece():
    return st.fixed_dictionaries(dict(arr=gen.array(max_ant=12), fc=gen.carrier(), rs=gen.seeds(), env=st.sampled_from(gen.ENVS), B=st.integers(1, 3), N=st.integers(1, 4),
                                      h=st.one_of(st.none(), gen.height()), el=st.one_of(st.none(), gen.elevation()), isd=st.one_of(st.none(), gen.fl(1., 1e5)), v=st.one_of(st.none(), gen.fl(.1, 100.)),
                                      n=st.integers(1, 6), mag=gen.fl(0., .95), phi=gen.fl(-80., 80.), sig=gen.fl(.5, 15.), glob=st.booleans()))


def fn_piece(case, ctx):
    import tensorflow as tf
    m, u = sut.load(), sut.utils()
    out = {}
    ctx.nt(True)
    ctx.label(case["arr"]["pat"], case["arr"]["pol"], "global" if case["glob"] else "argument")
    for p, (r, c) in P.items():
        with glob(case["glob"], p) as arg:
            kw = {"precision": arg} if arg else {}
            rng = np.random.default_rng(case["rs"])
            o = out[p] = {}
            sut.seed(case["rs"])
            ar = gen.mk_array(case["arr"], case["fc"], arg)
            public(ctx, ar, p)
            o["antenna positions"] = ar.ant_pos
            th, ph = rng.uniform(.02, 3.1, 20), rng.uniform(-3.1, 3.1, 20)
            o["field theta"], o["field phi"] = ar.ant_pol1.field(tf.constant(th.astype(np.float32), r), tf.constant(ph.astype(np.float32), r))
            topo = u.gen_single_sector_topology(case["B"], case["N"], SCN[case["env"]], **kw,
                                                **{k: v for k, v in dict(bs_height=case["h"], elevation_angle=case["el"], isd=case["isd"], max_ut_velocity=case["v"]).items() if v is not None})
            for i, x in enumerate(topo):
                ctx.check(kind(x) == (r if i < 5 else "bool"), f"generated topology entry {i} is {kind(x)} at {p} precision")
            o["generated station location"], o["generated station orientation"] = topo[1], topo[3]
            for i, x in enumerate(u.set_3gpp_scenario_parameters(SCN[case["env"]], **kw)):
                if kind(x):
                    typed(ctx, x, p, f"scenario parameter {i}")
            a = (rng.standard_normal((2, 1, 2, 1, 2, 3, 4)) + 1j * rng.standard_normal((2, 1, 2, 1, 2, 3, 4))).astype(np.complex64)
            tau = rng.uniform(0, 1e-6, (2, 1, 1, 3)).astype(np.float32)
            f = u.subcarrier_frequencies(case["n"], 15e3, **kw)
            o["subcarrier frequencies"] = f
            time, freq = u.time_frequency_vector(case["n"], 1e-6, **kw)
            o["time vector"], o["frequency vector"] = time, freq
            at, tt = tf.constant(a, c), tf.constant(tau, r)
            o["OFDM response"] = u.cir_to_ofdm_channel(f, at, tt, False)
            o["taps"] = u.cir_to_time_channel(1e6, at, tt, -2, 4, False)
            o["exponential correlation"] = u.exp_corr_mat(tf.constant(case["mag"] * np.exp(.7j), c), case["n"], **kw)
            o["one-ring correlation"] = u.one_ring_corr_mat(tf.constant(case["phi"], r), case["n"], sigma_phi_deg=case["sig"], **kw)
            o["radians"], o["degrees"] = u.deg_2_rad(tf.constant(ph, r)), u.rad_2_deg(tf.constant(ph, r))
            o["wrapped angle"] = u.wrap_angle_0_360(tf.constant(100 * th.astype(np.float32), r))
            for n, x in o.items():
                ctx.check(kind(x) in (r, c), f"{n} is {kind(x)} at {p} precision")
    for n in out["single"]:
        s, d = (np.asarray(out[p][n]) for p in ("single", "double"))
        # the time vector has an even/odd choice that does not depend on the precision
        ctx.close(d, s, n + " at double and single precision", 1e-4, 1e-5 * (np.abs(d).max() if d.size else 0) + (1e-5 if n.startswith("field") else 1e-12))


def s_tdl():
    return st.fixed_dictionaries(dict(model=st.sampled_from(["A", "B", "C", "D"]), ds=gen.fl(1e-8, 5e-7), fc=gen.fl(1e9, 4e10), v=gen.fl(0., 100.), rs=gen.seeds(),
                                      B=st.integers(1, 3), T=st.integers(1, 4), rx=st.integers(1, 2), tx=st.integers(1, 2), corr=st.sampled_from(["no", "sep", "full"]), glob=st.booleans()))


def fn_tdl(case, ctx):
    import tensorflow as tf
    m = sut.load()
    prof = {}
    for p, (r, c) in P.items():
        with glob(case["glob"], p) as arg:
            kw = {"precision": arg} if arg else {}
            sut.seed(case["rs"])
            eye = lambda n: tf.constant(np.eye(n) * .5 + .5, c)
            if case["corr"] == "sep":
                kw.update(rx_corr_mat=eye(case["rx"]), tx_corr_mat=eye(case["tx"]))
            elif case["corr"] == "full":
                kw.update(spatial_corr_mat=eye(case["rx"] * case["tx"]))
            t = m.TDL(model=case["model"], delay_spread=case["ds"], carrier_frequency=case["fc"], min_speed=0., max_speed=case["v"], num_rx_ant=case["rx"], num_tx_ant=case["tx"], **kw)
            public(ctx, t, p)
            a, tau = t(case["B"], case["T"], 1e4)
            ctx.check(kind(a) == c and kind(tau) == r, f"TDL coefficients {kind(a)}, delays {kind(tau)} at {p} precision")
            ctx.check(np.all(np.isfinite(np.asarray(a).view(r))), "TDL coefficients not finite")
            prof[p] = [np.asarray(x, float) for x in (t.delays, t.mean_powers) + ((t.k_factor, t.mean_power_los) if t.los else ())]
    ctx.nt(True)
    ctx.label(case["model"], case["corr"], "global" if case["glob"] else "argument")
    for i, (s, d) in enumerate(zip(prof["single"], prof["double"])):
        ctx.close(d, s, ("delays", "mean powers", "K-factor", "LoS power")[i] + " at double and single precision", 2e-5, 1e-13)


def f32(x):
    return float(np.float32(x))


def s_coef():
    # numbers given as Python floats are exactly representable in single precision
    return c10.s(True).map(lambda c: dict(c, fc=f32(c["fc"]), el=f32(c["el"]), dop=False, dist=f32(c["dist"] * 10. ** (c["rs"] % 6)), hs=[f32(h) for h in c["hs"]]))


def fn_coef(case, ctx):
    """a double-precision generator is accurate to double precision (Python floats: to single)"""
    c = c10.inputs(case)
    h, d, phi, t = c10.run(case, c, "double")
    ctx.check(h.dtype == np.complex128 and phi.dtype == np.float64, f"{h.dtype}, {phi.dtype} at double precision")
    ctx.nt(True)
    ctx.label(case["orient"], "satellite" if (c["hb"] >= 6e5).any() else "HAPS")
    want, tau, amp = c10.reference(case, c, phi, np.arange(case["T"]) / case["fs"])
    rms = np.sqrt(np.mean(np.abs(want) ** 2, axis=(3, 4, 5, 6), keepdims=True))
    sens = np.abs(c10.reference(case, c, phi, t, np.random.default_rng(0))[0] - want)   # to 2e-6 rad
    ctx.close(d, tau, "path delays at double precision", 1e-9, 1e-18)
    tol = ACC * (rms + np.abs(want)) + 1e-3 * sens
    e = np.abs(h - want)
    i = np.unravel_index(np.argmax(e - tol), e.shape)
    ctx.check(np.all(e <= tol), lambda: f"coefficient {h[i]} of a double-precision generator, equations give {want[i]} (difference {e[i]:.1e})")


ACC = 1e-6


def s_quant():
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier().map(f32), el=gen.elevation().map(f32), h=gen.height().map(f32), rs=gen.seeds(),
                                      t=gen.topo(max_b=3, max_ut=4, stations=True), arr=gen.array(max_ant=12)))


def fn_quant(case, ctx):
    import tensorflow as tf
    sut.seed(case["rs"])
    sc = gen.mk_scenario(case, "double", enable_shadow_fading=False)
    a = gen.set_topo(sc, case["t"], case["h"], tf.float64)
    ctx.nt(True)
    ctx.label(case["env"], case["dir"])
    get = lambda n: np.asarray(getattr(sc, n), float)
    u, b = a["ut_loc"].astype(float), a["bs_loc"].astype(float)
    v = u[:, None] - b[:, :, None]
    los = np.asarray(sc.los)
    h = np.broadcast_to(b[:, :, None, 2], los.shape)
    ctx.close(get("distance_2d"), np.hypot(v[..., 0], v[..., 1]), "distance_2d at double precision", 1e-9, 1e-9)
    ctx.close(get("matrix_ut_distance_2d"), np.linalg.norm(u[:, :, None, :2] - u[:, None, :, :2], axis=-1), "terminal distances at double precision", 1e-9, 1e-6)
    d3 = get("distance_3d")
    ctx.close(d3, ref.slant_range(h, case["el"]), "slant range at double precision", 2e-7, 1e-3)   # the elevation is a Python float
    dev = np.concatenate([(get("los_" + n) - w + 180) % 360 - 180 for n, w in (
        ("aod", np.degrees(np.arctan2(v[..., 1], v[..., 0]))), ("zod", np.degrees(np.arctan2(np.hypot(v[..., 0], v[..., 1]), v[..., 2]))))])
    ctx.check(np.all(np.abs(dev) < 2e-6), f"LoS departure angles at double precision are off by {np.abs(dev).max():.2e} degrees")
    ctx.close(get("free_space_pathloss"), 32.45 + 20 * np.log10(case["fc"] / 1e9) + 20 * np.log10(d3), "free-space loss at double precision", 1e-9, 2e-6)
    ctx.close(float(sc.lambda_0), ref.C0 / case["fc"], "wavelength at double precision", 1e-9, 0)
    for n in tables.NAMES:
        ang = tables.angle(case["el"])
        w = [tables.per_link(case, los, n, x) for x in ang]
        g = np.asarray(sc.get_param(n), float)
        if not any(np.isinf(x).any() for x in w):
            ctx.check(any(np.all(np.abs(g - x) <= 1e-9 * np.abs(x) + 1e-12) for x in w), lambda: f"parameter {n} at double precision: {g.ravel()[:2]!r}, table {w[0].ravel()[:2]!r}")
    ar = gen.mk_array(case["arr"], case["fc"], "double")
    ctx.close(np.asarray(ar.ant_pos), ref.elem_positions(case["arr"], ref.C0 / case["fc"])[0], "antenna positions at double precision", 1e-6, 1e-9)
    ro = np.random.default_rng(case["rs"])
    th, ph = ro.uniform(.02, 3.1, 30), ro.uniform(-3.1, 3.1, 30)
    if case["arr"]["pat"] != "aperture":
        for e, sl in zip((ar.ant_pol1,) + ((ar.ant_pol2,) if ar.polarization == "dual" else ()), ref.SLANTS[case["arr"]["pt"]]):
            f = [np.asarray(x) for x in e.field(tf.constant(th, tf.float64), tf.constant(ph, tf.float64))]
            G = ref.gain(case["arr"]["pat"], th, ph)
            ctx.close(f[0] ** 2 + f[1] ** 2, G, "element power at double precision", 1e-7, 1e-12)


def s_num():
    return st.fixed_dictionaries(dict(rs=gen.seeds(), n=st.integers(1, 24), scs=st.sampled_from([15e3, 30e3, 120e3, 7123.]), W=st.sampled_from([1e6, 3.84e6, 2.**24]), L=st.tuples(st.integers(-8, 0), st.integers(0, 12)),
                                      P=st.integers(1, 6), T=st.integers(1, 4), ant=st.integers(1, 2), mag=gen.fl(0., .95), norm=st.booleans()))


def fn_num(case, ctx):
    import tensorflow as tf
    u = sut.utils()
    r = np.random.default_rng(case["rs"])
    n, P, T, A = case["n"], case["P"], case["T"], case["ant"]
    ctx.nt(True)
    a = r.standard_normal((2, 1, A, 2, A, P, T)) + 1j * r.standard_normal((2, 1, A, 2, A, P, T))
    tau = np.sort(r.uniform(0, 3e-5, (2, 1, 2, P)), -1)
    at, tt = tf.constant(a, tf.complex128), tf.constant(tau, tf.float64)
    f = (np.arange(n) - (n // 2)) * case["scs"]
    fs_ = np.asarray(u.subcarrier_frequencies(n, case["scs"], precision="double"))
    ctx.close(fs_, f, "subcarrier frequencies at double precision", 1e-12, 0)
    ex = lambda x: x[:, :, None, :, None]
    want = np.einsum("...pt,...pf->...tf", a, np.exp(-2j * np.pi * ex(tau)[..., None] * f) * np.ones((1, 1, A, 1, A, 1, 1)))
    got = np.asarray(u.cir_to_ofdm_channel(tf.constant(f, tf.float64), at, tt, case["norm"]))
    if case["norm"]:
        want = want / np.sqrt(np.mean(np.abs(want) ** 2, axis=(2, 4, 5, 6), keepdims=True))
    ctx.close(got, want, "frequency response at double precision", 0, ACC * .01 * np.abs(want).max())
    l0, l1 = case["L"]
    taps = np.sinc(np.arange(l0, l1 + 1) - ex(tau)[..., None] * case["W"])
    want = np.einsum("...pt,...pl->...tl", a, taps * np.ones((1, 1, A, 1, A, 1, 1)))
    got = np.asarray(u.cir_to_time_channel(case["W"], at, tt, l0, l1, False))
    ctx.close(got, want, "taps at double precision", 0, ACC * .01 * np.abs(a).max())
    z = case["mag"] * np.exp(1j * r.uniform(-3, 3))
    i = np.arange(min(n, 8))
    w = np.where(i[:, None] >= i, z ** np.maximum(i[:, None] - i, 0), np.conj(z) ** np.maximum(i - i[:, None], 0))
    g = np.asarray(u.exp_corr_mat(tf.constant(z, tf.complex128), len(i), precision="double"))
    ctx.check(min(np.abs(g - w).max(), np.abs(g - w.T).max()) < 1e-9, "exponential correlation matrix at double precision")
    x = r.uniform(-1e3, 1e3, 20)
    ctx.close(np.asarray(u.deg_2_rad(tf.constant(x, tf.float64))), np.radians(x), "radians at double precision", 1e-12, 0)
    ctx.close(np.asarray(u.rad_2_deg(tf.constant(x, tf.float64))), np.degrees(x), "degrees at double precision", 1e-12, 0)
    ctx.close(np.asarray(u.wrap_angle_0_360(tf.constant(x, tf.float64))), np.mod(x, 360), "wrapped angle at double precision", 1e-12, 1e-10)


SUBS = [Sub("coefficients", s_coef, fn_coef, 40, 800, shards=2, weight=5.), Sub("quantities", s_quant, fn_quant, 80, 1500, shards=2, weight=4.), Sub("numeric", s_num, fn_num, 120, 2000, weight=3.),
        Sub("channel", s_chan, fn_chan, 150, 2500, shards=4, weight=6.), Sub("scenario", s_scn, fn_scn, 150, 2500, shards=2, weight=4.), Sub("response", s_resp, fn_resp, 80, 1500, shards=3, weight=5.),
        Sub("pieces", s_piece, fn_piece, 150, 2500, shards=2, weight=2.), Sub("tdl", s_tdl, fn_tdl, 80, 1200, weight=2.)]
