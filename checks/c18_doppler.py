import numpy as np
from hypothesis import strategies as st
from harness import gen, ref, sut
from harness.core import Sub

RULE = ("still: complete channels whose terminals are at rest and whose satellite Doppler is off or absent are constant in time; resting terminals stay constant beside moving ones. "
        "grid: the same draw sampled on coarser/finer/longer grids agrees at common instants. scaling: velocity times k at time t/k gives the same coefficients. "
        "band: coefficients of complete channels lie in the span of exponentials inside the allowed Doppler band. orbit: with terminals at rest all paths of a station rotate alike, "
        "uniformly, within the orbital speed's line-of-sight component, only at 600 km and above. ray: single-ray links rotate at exactly 2 pi/lambda times the velocity along the ray. Non-trivial: something moves or several links.")
ASSUMPTIONS = ["tolerances: single-precision phase rounding, proportional to Doppler rate times time",
               "the satellite's random orbit direction is free within the bound",
               "doppler_enabled=False switches off the satellite's shift only (the existing tests rely on terminal Doppler remaining)"]
TWO_PI = 2 * np.pi


def s_ch(haps=None, T=6):
    h = {True: gen.fl(8e3, 5.9e5), False: st.one_of(st.just(6e5), gen.fl(6e5, 2e6), st.just(3.5786e7)), None: gen.height()}[haps]
    return dict(c=gen.config(gen.array(2), h=h), t=gen.topo(2, 3, stations=False), T=st.integers(2, T), rs=gen.seeds(), pl=st.booleans())


def build(case, v=None, dop=True, rest=None):
    """channel, velocities"""
    import tensorflow as tf
    ch = gen.mk_channel(case["c"], doppler_enabled=dop, enable_pathloss=case["pl"], enable_shadow_fading=case["pl"])
    a = gen.topo_arrays(case["t"], case["c"]["h"])
    vel = a["ut_velocities"] if v is None else v.astype(np.float32)
    sut.seed(case["rs"])
    gen.set_topo(ch, case["t"], case["c"]["h"], ut_velocities=tf.constant(vel))
    return ch, vel


def call(ch, case, T, fs):
    sut.seed(case["rs"] + 1)
    a, tau = ch(T, fs)
    a = np.asarray(a).astype(complex)
    a, tau = np.moveaxis(a, 3, 2), np.asarray(tau)                         # [B, rx, tx, rx ant, tx ant, paths, T]
    if case["c"]["dir"] == "uplink":
        a, tau = np.swapaxes(a, 1, 2), np.swapaxes(tau, 1, 2)
    return a, tau                                                          # [B, ut, station, ...]


def lam(case):
    return ref.C0 / case["c"]["fc"]


def s_still():
    return st.fixed_dictionaries(dict(**s_ch(), dop=st.booleans(), some=st.booleans(), fs=st.sampled_from([1., 1e3, 1e6])))


def fn_still(case, ctx):
    off = not case["dop"] or case["c"]["h"] < 6e5
    r = np.random.default_rng(case["rs"])
    B, N = case["t"]["B"], case["t"]["N"]
    v = np.zeros((B, N, 3))
    mv = np.zeros((B, N), bool)
    if case["some"]:
        mv = r.random((B, N)) < .5
        v[mv] = r.uniform(5, 100, (mv.sum(), 3))
    dop = case["dop"] if case["c"]["h"] < 6e5 else False
    ch, _ = build(case, v, dop)
    a, _ = call(ch, case, case["T"], case["fs"])
    ctx.nt(True)
    ctx.label("HAPS" if case["c"]["h"] < 6e5 else "satellite, Doppler off", case["c"]["dir"], "mixed" if mv.any() and not mv.all() else "uniform")
    ctx.check(np.all(np.isfinite(a)), "not finite")
    d = np.abs(a - a[..., :1]).max(axis=(2, 3, 4, 5, 6))
    m = np.abs(a).max(axis=(2, 3, 4, 5, 6))
    bad = ~mv & (d > 1e-5 * m)
    ctx.check(not bad.any(), f"coefficients of a terminal at rest change over time by {np.max(np.where(bad, d / (m + 1e-300), 0)):.2e} of their magnitude")


def s_grid():
    return st.fixed_dictionaries(dict(**s_ch(), k=st.integers(1, 5), more=st.integers(0, 4), rad=gen.fl(.01, 3.)))


def rates(case, vel):
    """largest terminal and satellite Doppler rates [rad/s]"""
    l = lam(case)
    return TWO_PI / l * np.linalg.norm(vel, axis=-1).max(), TWO_PI / l * (ref.sat_speed(case["c"]["h"], case["c"]["el"]) if case["c"]["h"] >= 6e5 else 0.)


def fn_grid(case, ctx):
    ch, vel = build(case)
    wu, ws = rates(case, vel)
    fs = max((wu + ws) / case["rad"], 1.)
    k, T = case["k"], case["T"]
    a, ta = call(ch, case, T, fs)
    b, tb = call(ch, case, k * (T - 1) + 1 + case["more"], fs * k)
    ctx.nt(wu + ws > 0)
    ctx.label("k=%d" % k, case["c"]["dir"])
    ctx.check(b.shape[-1] == k * (T - 1) + 1 + case["more"], f"{b.shape[-1]} time samples instead of {k * (T - 1) + 1 + case['more']}")
    ctx.check(np.array_equal(ta, tb), "delays depend on the sampling grid")
    s = b[..., :k * (T - 1) + 1:k]
    lim = (2e-5 + 2e-6 * (wu + ws) * T / fs) * np.abs(a).max(axis=(2, 3, 4, 5, 6), keepdims=True) * np.sqrt(20)
    d = np.abs(a - s)
    ctx.check(np.all(d <= lim), f"coefficients at common instants depend on the sampling grid: differ by {(d / lim).max():.1f} times the allowance")


def s_scale():
    return st.fixed_dictionaries(dict(**s_ch(), k=gen.fl(.1, 10.), rad=gen.fl(.05, 3.), dop=st.booleans()))


def fn_scale(case, ctx):
    r = np.random.default_rng(case["rs"])
    v = r.uniform(-1, 1, (case["t"]["B"], case["t"]["N"], 3)) * 30.
    out = []
    c2 = dict(case)
    dop = case["dop"] if case["c"]["h"] < 6e5 else False
    for f in (1., case["k"]):
        ch, vel = build(case, v * f, dop)
        w = TWO_PI / lam(case) * np.linalg.norm(v, axis=-1).max()
        out.append(call(ch, case, case["T"], f * w / case["rad"]))
    (a, ta), (b, tb) = out
    ctx.nt(case["T"] > 1)
    ctx.label(case["c"]["dir"], "HAPS" if case["c"]["h"] < 6e5 else "satellite")
    ctx.check(np.array_equal(ta, tb), "delays depend on the velocity")
    lim = (5e-5 + 4e-6 * case["rad"] * case["T"]) * np.abs(a).max(axis=(2, 3, 4, 5, 6), keepdims=True) * np.sqrt(20)
    d = np.abs(a - b)
    ctx.check(np.all(d <= lim), f"velocity x k over time / k is not the same channel: differs by {(d / lim).max():.1f} times the allowance")
    # the same rotation rate in every environment: a moving terminal does change
    if case["rad"] > .3:
        e = np.abs(a).max(axis=(2, 3, 4, 5, 6))
        m = np.abs(a - a[..., :1]).max(axis=(2, 3, 4, 5, 6))[e > 0] / e[e > 0]
        ctx.check(m.size == 0 or m.max() > 1e-4, "moving terminals have a constant channel")


def s_band():
    return st.fixed_dictionaries(dict(**{**s_ch(), "T": st.just(24)}, rad=gen.fl(.02, .3), v=st.sampled_from([1., 30., 300., 3000.])))


def outside(W, T):
    """projector on the complement of the span of exp(j w t), |w| <= W rad/sample"""
    E = np.exp(1j * np.outer(np.arange(T), np.linspace(-W, W, 601))) / np.sqrt(601)
    U, s, _ = np.linalg.svd(E)
    k = int(np.sum(s > 1e-6 * s[0]))
    return np.eye(T) - U[:, :k] @ U[:, :k].conj().T, k


def fn_band(case, ctx):
    r = np.random.default_rng(case["rs"])
    B, N = case["t"]["B"], case["t"]["N"]
    v = r.normal(size=(B, N, 3))
    v *= case["v"] * r.uniform(.2, 1, (B, N, 1)) / np.linalg.norm(v, axis=-1, keepdims=True)
    ch, vel = build(case, v)
    wu, ws = rates(case, vel)
    fs = (wu + ws) / case["rad"]
    T = case["T"]
    a, _ = call(ch, case, T, fs)
    ctx.nt(True)
    ctx.label("terminal dominates" if wu > ws else "satellite dominates", case["c"]["dir"])
    worst = 0.
    for b in range(B):
        for n in range(N):
            w = TWO_PI / lam(case) * np.linalg.norm(vel[b, n]) + ws
            P, k = outside(w / fs * 1.001 + 1e-4, T)
            x = a[b, n].reshape(-1, T)
            e = np.linalg.norm(x @ P.T, axis=-1)
            m = np.abs(x).max() * np.sqrt(T)
            worst = max(worst, e.max() / (m + 1e-300))
    ctx.check(worst < 2e-4 + 1e-6 * case["rad"] * T, f"coefficients contain frequencies beyond the terminal's plus the satellite's Doppler: {worst:.2e} of the magnitude lies outside")


def s_orbit():
    return st.fixed_dictionaries(dict(c=gen.config(gen.array(2)), hs=st.lists(st.one_of(gen.height(), st.sampled_from([6e5, 5.9999e5, 6.0001e5])), min_size=1, max_size=3),
                                      B=st.sampled_from([2, 30, 60]), N=st.integers(1, 2), nb=st.integers(1, 2), ts=gen.seeds(), rs=gen.seeds(), rad=gen.fl(.1, 2.5), T=st.integers(2, 5), dop=st.sampled_from([True, True, False])))


def fn_orbit(case, ctx):
    import tensorflow as tf
    r = np.random.default_rng(case["rs"])
    t = dict(B=case["B"], N=case["N"], nb=case["nb"], hs=case["hs"], ts=case["ts"], spread=1e3, off=1e4, vmax=0., indoor=0, orient=True, los=None)
    ch = gen.mk_channel(case["c"], doppler_enabled=case["dop"])
    sut.seed(case["rs"])
    arr = gen.set_topo(ch, t, case["c"]["h"])
    hb = arr["bs_loc"][..., 2].astype(float)                               # [B, nb]
    wmax = TWO_PI / lam(case) * ref.sat_speed(hb, case["c"]["el"])
    sat = hb >= 6e5
    fs = max((wmax * sat).max(), 1e3) / case["rad"]
    a, _ = call(ch, case, case["T"], fs)
    a = np.moveaxis(a, 2, 1).reshape(case["B"], case["nb"], -1, case["T"])
    ctx.nt(sat.any())
    ctx.label("mixed" if sat.any() and not sat.all() else "satellite" if sat.all() else "HAPS", case["c"]["dir"], "on" if case["dop"] else "off")
    z = np.sum(np.conj(a[..., :1]) * a, axis=2)
    E = np.sum(np.abs(a[..., 0]) ** 2, axis=2)
    ang = np.angle(z[..., 1])
    tol = 2e-3 + 3e-7 * 8000 * TWO_PI / lam(case) / fs                    # rounding of the elevation near 90 degrees
    lim = np.where(sat & case["dop"], wmax / fs, 0.)
    ok = E > 0
    ctx.check(np.all(np.abs(ang)[ok] <= (lim * 1.0005 + tol)[ok]), lambda: f"station at {hb[ok][np.argmax((np.abs(ang) - lim)[ok])]:.0f} m advances {np.abs(ang)[ok][np.argmax((np.abs(ang) - lim)[ok])]:.4f} rad per sample, "
              f"the orbital speed along the line of sight allows {lim[ok][np.argmax((np.abs(ang) - lim)[ok])]:.4f}")
    rot = np.exp(1j * ang[..., None] * np.arange(case["T"]))
    d = np.abs(a - a[..., :1] * rot[:, :, None]).max(axis=2) / (np.abs(a).max(axis=(2, 3))[..., None] + 1e-300)
    ctx.check(np.all(d[ok] < 5e-3 * case["T"]), f"paths of one station do not rotate alike and uniformly (deviation {d.max():.2e})")
    live = sat & ok & (lim > .05) if case["dop"] else np.zeros_like(sat)
    if live.sum() >= 60 and live.any(axis=1).sum() >= 30:
        x = (np.abs(ang) / np.where(live, lim, 1))[live]
        ctx.label("spread judged")
        ctx.check(x.max() > .4, f"no satellite of {live.sum()} shows more than {x.max():.3f} of its possible Doppler shift")
        ctx.check(ang[live].min() < 0 < ang[live].max(), "satellites only ever approach or only ever recede")


def s_ray():
    return st.fixed_dictionaries(dict(end=st.sampled_from(["rx", "tx"]), fc=gen.carrier(), B=st.integers(1, 3), X=st.integers(1, 3), Y=st.integers(1, 3), v=st.sampled_from([1., 50., 5000.]),
                                      h=gen.fl(8e3, 5.99e5), rad=gen.fl(.05, 2.8), T=st.integers(2, 6), rs=gen.seeds(), N=st.integers(1, 4), dop=st.booleans(), los=st.booleans()))


def fn_ray(case, ctx):
    import tensorflow as tf
    m = sut.load()
    r = np.random.default_rng(case["rs"])
    B, X, Y, N = case["B"], case["X"], case["Y"], case["N"]
    nu, nb = (Y, X) if case["end"] == "rx" else (X, Y)
    f = lambda x: tf.constant(x.astype(np.float32))
    v = r.normal(size=(B, nu, 3)) * case["v"]
    ang = {k: r.uniform(-np.pi, np.pi, (B, X, Y, N, 1)) if k[0] == "a" else r.uniform(0, np.pi, (B, X, Y, N, 1)) for k in ("aoa", "aod", "zoa", "zod")}
    la = {k: a[..., 0, 0] for k, a in ang.items()}                          # first path and LoS ray share their direction
    topo = m.Topology(velocities=f(v), moving_end=case["end"], los_aoa=f(la["aoa"]), los_aod=f(la["aod"]), los_zoa=f(la["zoa"]), los_zod=f(la["zod"]), los=tf.fill([B, X, Y], case["los"]),
                      distance_3d=f(np.full((B, X, Y), 10.)), tx_orientations=f(np.zeros((B, X, 3))), rx_orientations=f(np.zeros((B, Y, 3))), bs_height=f(np.full((B, nb), case["h"])),
                      elevation_angle=50., doppler_enabled=case["dop"])
    rays = m.Rays(delays=f(np.tile(np.arange(N) * 1e-7, (B, X, Y, 1))), powers=f(np.full((B, X, Y, N), 1. / N)), xpr=f(np.full((B, X, Y, N, 1), 10.)), **{k: f(x) for k, x in ang.items()})
    arr = gen.mk_array(gen.OMNI, case["fc"])
    g = m.ChannelCoefficientsGenerator(case["fc"], arr, arr, False)
    sut.seed(case["rs"])
    l = ref.C0 / case["fc"]
    ax, zx = (ang["aoa"], ang["zoa"]) if case["end"] == "rx" else (ang["aod"], ang["zod"])
    vv = (v[:, None] if case["end"] == "rx" else v[:, :, None])[:, :, :, None]
    w = TWO_PI / l * np.einsum("...i,...i->...", ref.unit(zx, ax)[..., 0, :], np.broadcast_to(vv, (B, X, Y, N, 3)))
    fs = np.abs(w).max() / case["rad"]
    h, _ = g(case["T"], fs, f(np.full((B, X, Y), 3.)), rays, topo, None)[:2]
    h = np.asarray(h)[..., 0, 0, :].astype(complex)
    ctx.nt(nu > 1 or N > 1)
    ctx.label(case["end"], "LoS" if case["los"] else "NLoS")
    want = h[..., :1] * np.exp(1j * w[..., None] / fs * np.arange(case["T"]))
    # direction rounding 3e-7 rad in single precision, per unit of speed
    lim = (1e-5 + 3e-6 * TWO_PI / l * np.linalg.norm(v, axis=-1).max() * case["T"] / fs) * np.abs(h).max()
    d = np.abs(h - want)
    ctx.check(np.all(d <= lim), f"single-ray path does not rotate at 2 pi/lambda times its velocity component: off by {d.max() / np.abs(h).max():.2e} ({case['end']} moves)")


SUBS = [Sub("still", s_still, fn_still, 70, 1400, shards=3, weight=4.), Sub("grid", s_grid, fn_grid, 50, 1200, shards=3, weight=4.), Sub("scaling", s_scale, fn_scale, 40, 1000, shards=3, weight=4.),
        Sub("band", s_band, fn_band, 50, 1200, shards=3, weight=4.), Sub("orbit", s_orbit, fn_orbit, 45, 900, shards=3, weight=4.), Sub("ray", s_ray, fn_ray, 150, 3000, weight=2.)]
