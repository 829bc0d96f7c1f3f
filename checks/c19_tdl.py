import numpy as np
from hypothesis import strategies as st
from scipy.special import j0
from harness import gen, ref, stat, sut
from harness.core import Sub

RULE = ("profile: every model, delay spread, precision and antenna count; delays, mean powers, K-factor and output layout against the 3GPP tables written out here. "
        "power: second and fourth moments of every tap over thousands of realizations (the K-factor shows in the fourth). correlation: sample covariance of all antenna pairs for random correlation matrices. "
        "doppler: every realization lies in the span of exponentials within the maximum Doppler shift, and the autocorrelation is that of the speed range. Non-trivial: several antennas, or a speed, or a rescaled delay spread.")
ASSUMPTIONS = ["tables: TR 38.811 6.9.2 (NTN-TDL-A..D) and TR 38.101-4 (TDLA30, TDLB100, TDLC300)",
               "the satellite's experimental extra Doppler term is only bounded (by its 38.811 value); at 90 degrees elevation it vanishes and the terminal's Doppler is judged exactly",
               "statistical bounds are 8 standard errors or wider"]
# delays, powers [dB], LoS power [dB] of the first tap
TAB = {"A": ([0, 1.0811, 2.8416], [0, -4.675, -6.482], None), "B": ([0, .7249, .7410, 5.7392], [0, -1.973, -4.332, -11.914], None),
       "C": ([0, 14.8124], [-10.618, -23.373], -.394), "D": ([0, .5596, 7.3340], [-11.991, -9.887, -16.771], -.284),
       "A30": ([0, 10, 15, 20, 25, 50, 65, 75, 105, 135, 150, 290], [-15.5, 0, -5.1, -5.1, -9.6, -8.2, -13.1, -11.5, -11., -16.2, -16.6, -26.2], None),
       "B100": ([0, 10, 20, 30, 35, 45, 55, 120, 170, 245, 330, 480], [0, -2.2, -.6, -.6, -.3, -1.2, -5.9, -2.2, -.8, -6.3, -7.5, -7.1], None),
       "C300": ([0, 65, 70, 190, 195, 200, 240, 325, 520, 1045, 1510, 2595], [-6.9, 0, -7.7, -2.5, -2.4, -9.9, -8., -6.6, -7.1, -13., -14.2, -16.], None)}
MODELS = sorted(TAB)


def profile(model, ds):
    d, p, l = TAB[model]
    p = 10 ** (np.array(p) / 10)
    l = 0. if l is None else 10 ** (l / 10)
    n = p.sum() + l
    return np.array(d, float) * (1e-9 if len(model) > 1 else ds), p / n, l / n


def mk(case, **kw):
    m = sut.load()
    sut.seed(case["rs"])
    return m.TDL(case["m"], case["ds"], case["fc"], num_rx_ant=case["nr"], num_tx_ant=case["nt"], **kw)


def base():
    return dict(m=st.sampled_from(MODELS), ds=st.one_of(gen.fl(1e-9, 1e-5), st.sampled_from([30e-9, 100e-9, 300e-9])), fc=gen.carrier(), nr=st.integers(1, 3), nt=st.integers(1, 3), rs=gen.seeds())


def s_profile():
    return st.fixed_dictionaries(dict(**base(), prec=st.sampled_from([None, "single", "double"]), B=st.integers(1, 4), T=st.integers(1, 6), v=st.sampled_from([0., 3., 100.]), dv=st.sampled_from([None, 0., 50.]),
                                      ns=st.sampled_from([4, 20, 33]), set=st.one_of(st.none(), gen.fl(1e-9, 1e-5)), fs=st.sampled_from([1e3, 1e6]), h=gen.height().filter(lambda h: h >= 160e3), el=gen.fl(0., 90.)))


def fn_profile(case, ctx):
    t = mk(case, precision=case["prec"], min_speed=case["v"], max_speed=None if case["dv"] is None else case["v"] + case["dv"], num_sinusoids=case["ns"], basestation_height=case["h"], elevation_angle=case["el"])
    ds = case["ds"]
    ctx.label(case["m"], str(case["prec"]))
    ctx.nt(case["nr"] * case["nt"] > 1 or case["v"] > 0)
    if case["set"] is not None:
        t.delay_spread = case["set"]
        ds = case["set"]
    d, p, l = profile(case["m"], ds)
    n = len(d)
    rt = 2e-6
    ctx.check(int(t.num_clusters) == n, f"{int(t.num_clusters)} taps instead of {n}")
    ctx.check(bool(t.los) == (l > 0), "LoS flag")
    ctx.close(np.asarray(t.delays), d, "delays", rt, 1e-16)
    full = p.copy(); full[0] += l
    ctx.close(np.asarray(t.mean_powers), full, "mean powers", rt, 0)
    ctx.check(abs(float(np.sum(t.mean_powers)) - 1) < 1e-5, "mean powers do not sum to one")
    if l > 0:
        ctx.close(float(t.k_factor), l / p[0], "K-factor", 1e-5, 0)
        ctx.close(float(t.mean_power_los), l, "LoS power", 1e-5, 0)
    a, tau = t(case["B"], case["T"], case["fs"])
    ctx.check(tuple(a.shape) == (case["B"], 1, case["nr"], 1, case["nt"], n, case["T"]), f"coefficients {a.shape}")
    ctx.check(tuple(tau.shape) == (case["B"], 1, 1, n), f"delays {tau.shape}")
    dbl = case["prec"] == "double"
    ctx.check(a.dtype.name == ("complex128" if dbl else "complex64") and tau.dtype.name == ("float64" if dbl else "float32"), f"types {a.dtype.name}, {tau.dtype.name} at precision {case['prec']}")
    ctx.close(np.asarray(tau), np.broadcast_to(d, tau.shape), "tap delays", rt, 1e-16)
    ctx.check(np.all(np.isfinite(np.asarray(a))), "coefficients not finite")
    lim = np.sqrt(p * case["ns"]) + np.sqrt(l) * (np.arange(n) == 0)
    ctx.check(np.all(np.abs(np.asarray(a)).max(axis=(0, 1, 2, 3, 4, 6)) <= lim * 1.0001 + 1e-6), "tap magnitude exceeds its sinusoids'")


def s_power():
    return st.fixed_dictionaries(dict(**base(), v=st.sampled_from([0., 30.]), prec=st.sampled_from([None, "double"])))


def se_ok(x, mu, ctx, what, slack=1e-4):
    """mean of independent rows within 8 standard errors"""
    m, s = x.mean(axis=0), x.std(axis=0) / np.sqrt(len(x))
    bad = np.abs(m - mu) > 8 * s + slack * np.abs(mu)
    ctx.check(not np.any(bad), lambda: f"{what}: {m} instead of {np.asarray(mu)} (standard error {s})")


def fn_power(case, ctx):
    t = mk(case, min_speed=case["v"], precision=case["prec"])
    n = 6000
    a = np.asarray(t(n, 2, 1e3)[0])[:, 0, :, 0]                             # [n, nr, nt, taps, 2]
    d, p, l = profile(case["m"], case["ds"])
    ctx.nt(True)
    ctx.label(case["m"])
    P = np.abs(a) ** 2
    full = p.copy(); full[0] += l
    se_ok(P.mean(axis=(1, 2, 4)), full, ctx, "average tap powers")
    N = 20.
    f4 = (2 - 1 / N) * p ** 2
    f4[0] += l ** 2 + 4 * l * p[0]
    se_ok((P ** 2).mean(axis=(1, 2, 4)), f4, ctx, "fourth moments of the taps (Rayleigh, Rice with the tabulated K)")
    # taps are uncorrelated, antennas too for the diffuse part
    x = a[..., 0] / np.sqrt(full)
    g = np.einsum("nijk,nijl->nkl", x, np.conj(x)) / (case["nr"] * case["nt"])
    g = g[:, ~np.eye(len(p), dtype=bool)]
    if g.size:
        se_ok(np.concatenate([g.real, g.imag], 1), 0., ctx, "correlation between taps", 0)
    se_ok(np.concatenate([x.real.reshape(n, -1), x.imag.reshape(n, -1)], 1), 0., ctx, "mean of the taps", 0)


def herm(r, n):
    """random correlation matrix"""
    a = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
    R = a @ a.conj().T + .3 * np.eye(n)
    d = np.sqrt(np.real(np.diag(R)))
    return R / np.outer(d, d)


def s_corr():
    return st.fixed_dictionaries(dict(**{**base(), "nr": st.integers(1, 3), "nt": st.integers(1, 3)}, kind=st.sampled_from(["rx", "tx", "both", "both", "spatial", "product"]), prec=st.sampled_from([None, "double"])))


def fn_corr(case, ctx):
    r = np.random.default_rng(case["rs"])
    Rr, Rt = herm(r, case["nr"]), herm(r, case["nt"])
    k = case["kind"]
    kw = {"rx": dict(rx_corr_mat=Rr), "tx": dict(tx_corr_mat=Rt), "both": dict(rx_corr_mat=Rr, tx_corr_mat=Rt)}.get(k)
    want = np.kron(Rr if k in ("rx", "both", "product") else np.eye(case["nr"]), Rt if k in ("tx", "both", "product") else np.eye(case["nt"]))
    if kw is None:
        if k == "spatial":
            want = herm(r, case["nr"] * case["nt"])
        kw = dict(spatial_corr_mat=want, rx_corr_mat=herm(r, case["nr"]))    # the latter is documented to be ignored
    t = mk(case, precision=case["prec"], **kw)
    n = 5000
    a = np.asarray(t(n, 1, 1e3)[0])[:, 0, :, 0, :, :, 0]                    # [n, nr, nt, taps]
    d, p, l = profile(case["m"], case["ds"])
    if l > 0:                                                               # specular part is common, judge the diffuse taps
        a, p = a[..., 1:], p[1:]
    x = (a / np.sqrt(p)).reshape(n, -1, len(p)).astype(complex)             # receive antennas major
    m = want.shape[0]
    ctx.nt(m > 1)
    ctx.label(k, case["m"])
    C = np.einsum("nik,njk->ij", x, np.conj(x)) / (n * len(p))
    tol = 8 / np.sqrt(n * len(p))
    ctx.check(np.abs(C - want).max() <= tol, lambda: f"antenna correlation ({k}) differs from the requested one by {np.abs(C - want).max():.3f} (allowed {tol:.3f}): {np.round(C, 2).tolist()} instead of {np.round(want, 2).tolist()}")


def s_dop():
    return st.fixed_dictionaries(dict(**{**base(), "nr": st.integers(1, 2), "nt": st.integers(1, 2)}, v=st.sampled_from([0., 1., 30., 300.]), dv=st.sampled_from([None, 0., .5, 3.]), el=st.sampled_from([90., 90., 50., 0.]),
                                      h=st.sampled_from([6e5, 1.2e6, 3.5786e7]), rad=gen.fl(.1, .8), los=gen.fl(0., np.pi), big=st.booleans(), prec=st.sampled_from([None, None, "double"])))


def fn_dop(case, ctx):
    from checks.c18_doppler import outside
    v0, v1 = case["v"], case["v"] * (1 + (case["dv"] or 0))
    k = 2 * np.pi * case["fc"] / ref.C0
    w0, w1 = k * v0, k * v1
    sat = k * ref.sat_speed(case["h"], case["el"]) if case["el"] < 90 else 0.
    fs = max(w1, 1.) / case["rad"]
    t = mk(case, precision=case["prec"], min_speed=v0, max_speed=None if case["dv"] is None else v1, los_angle_of_arrival=case["los"], basestation_height=case["h"], elevation_angle=case["el"])
    n = 4000 if case["big"] else 200
    a = np.asarray(t(n, 12, fs)[0])[:, 0, :, 0].astype(complex)             # [n, nr, nt, taps, T]
    d, p, l = profile(case["m"], case["ds"])
    ctx.nt(w1 > 0)
    ctx.label(case["m"], "elevation 90" if sat == 0 else "oblique", "range" if w1 > w0 else "one speed")
    W = (w1 + sat) / fs
    if W < 2.2:
        P, _ = outside(W * 1.001 + 1e-4, 12)
        e = np.linalg.norm(a @ P.T, axis=-1).max() / np.abs(a).max() / np.sqrt(12)
        ctx.check(e < 1e-4, f"taps contain frequencies beyond the maximum Doppler shift ({e:.1e} of the magnitude)")
    if sat == 0:
        g = np.linspace(w0, w1, 2001)[:, None] / fs * np.arange(12)
        J = j0(g).mean(axis=0)
        S = np.exp(1j * g * np.cos(case["los"])).mean(axis=0)
        acf = (a * np.conj(a[..., :1])).mean(axis=(1, 2))                   # [n, taps, T]
        want = p[:, None] * J + 0j
        want[0] += l * S
        s = np.sqrt((np.abs(acf) ** 2).mean(axis=0) / n)
        bad = np.abs(acf.mean(axis=0) - want) > 9 * s + 1e-4 * p.max()
        ctx.check(not bad.any(), lambda: f"autocorrelation of the taps differs from the Doppler spectrum's: {np.round(acf.mean(axis=0), 3)[np.any(bad, axis=1)].tolist()} instead of {np.round(want, 3)[np.any(bad, axis=1)].tolist()}")

        # all taps together (their phases are independent): resolves a deviation common to them that is below the noise of each
        z = (acf / p[:, None]).mean(axis=1)                                     # [n, T]
        e = np.abs(z.mean(axis=0) - (want / p[:, None]).mean(axis=0))
        s = np.sqrt((np.abs(z - z.mean(axis=0)) ** 2).mean(axis=0) / n)
        ctx.check(np.all(e <= 7 * s + 1e-3), lambda: f"autocorrelation of the taps, pooled: differs from the Doppler spectrum's by {np.round(e, 4).tolist()} (standard error {np.round(s, 4).tolist()})")


def fn_reject(case, ctx):
    m = sut.load()
    ctx.nt(True)
    kw = dict(model="A", delay_spread=1e-7, carrier_frequency=2e9)
    try:
        m.TDL(**{**kw, **case["kw"]})
    except AssertionError:
        ok = False
    else:
        ok = True
    ctx.check(ok == case["ok"], f"TDL({case['kw']}) {'accepted' if ok else 'refused'}")


REJ = [dict(kw=k, ok=o) for k, o in (({}, True), (dict(model="E"), False), (dict(model="F"), False), (dict(min_speed=3., max_speed=2.9), False), (dict(min_speed=3., max_speed=3.), True),
                                     (dict(basestation_height=160e3), True), (dict(basestation_height=159.9e3), False), (dict(elevation_angle=-.1), False), (dict(elevation_angle=90.1), False),
                                     (dict(elevation_angle=0.), True), (dict(elevation_angle=90.), True))]
SUBS = [Sub("profile", s_profile, fn_profile, 200, 3000, weight=2.), Sub("power", s_power, fn_power, 40, 600, shards=2, weight=3.), Sub("correlation", s_corr, fn_corr, 80, 1200, shards=2, weight=3.),
        Sub("doppler", s_dop, fn_dop, 60, 900, shards=3, weight=4.), Sub("arguments", None, fn_reject, fixed=REJ)]
