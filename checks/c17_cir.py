import numpy as np
from hypothesis import strategies as st
from harness import gen, sut
from harness.core import Sub

RULE = ("ofdm, taps: random impulse responses of every rank and size (common or per-antenna delays), both precisions, with and without normalization, against the defining sums in double precision. "
        "fft: taps with delays on the sampling grid and arbitrary taps through time_to_ofdm_channel of a real ResourceGrid, against the documented DFT and the frequency-domain channel. "
        "grids: subcarrier, time-frequency and lag grids. chain: impulse responses of real NTN channels, OpenNTN's conversions against the defining sums. Non-trivial: several paths and links.")
ASSUMPTIONS = ["tolerances are first-order single/double precision rounding bounds of phase 2*pi*f*tau and sinc argument W*tau",
               "the tap window is narrower than the FFT (required by the documented DFT)"]
EPS = {"single": 1.2e-7, "double": 2.3e-16}


def s_cir(paths=12, T=5):
    return st.fixed_dictionaries(dict(dim=st.tuples(*[st.integers(1, 3)] * 5), P=st.integers(1, paths), T=st.integers(1, T), rank6=st.booleans(),
                                      prec=st.sampled_from(["single", "double"]), rs=gen.seeds(), ds=st.sampled_from([1e-8, 1e-7, 1e-6, 5e-6]),
                                      scale=st.sampled_from([1., 1e-8, 1e3]), zero=st.sampled_from(["none", "none", "none", "link", "all"]), norm=st.booleans()))


def cir(c, W):
    import tensorflow as tf
    r = np.random.default_rng(c["rs"])
    B, R, Ra, X, Xa = c["dim"]
    a = (r.normal(size=(B, R, Ra, X, Xa, c["P"], c["T"])) + 1j * r.normal(size=(B, R, Ra, X, Xa, c["P"], c["T"]))) * c["scale"]
    if c["zero"] == "all":
        a[:] = 0
    elif c["zero"] == "link":
        a[0, 0, :, 0] = 0
    tau = r.exponential(c["ds"], size=(B, R, Ra, X, Xa, c["P"]) if c["rank6"] else (B, R, X, c["P"]))
    if c.get("grid"):
        tau = np.round(tau * W) / W
    rd, cd = (np.float32, np.complex64) if c["prec"] == "single" else (np.float64, np.complex128)
    a, tau = a.astype(cd), tau.astype(rd)
    return a, tau, tf.constant(a), tf.constant(tau)


def full(tau, dim):
    """delays as [B, R, Ra, X, Xa, P] in double precision"""
    t = tau.astype(float)
    if t.ndim == 4:
        t = t[:, :, None, :, None, :]
    return np.broadcast_to(t, tuple(dim) + (tau.shape[-1],))


def ref_ofdm(f, a, tau):
    ph = np.exp(-2j * np.pi * tau[..., None] * f)                          # [..., P, F]
    return np.einsum("...pt,...pf->...tf", a.astype(complex), ph)


def ref_taps(W, a, tau, lo, hi):
    g = np.sinc(np.arange(lo, hi + 1) - W * tau[..., None])
    return np.einsum("...pt,...pl->...tl", a.astype(complex), g)


def s_ofdm():
    return st.fixed_dictionaries(dict(c=s_cir(), K=st.integers(1, 24), sp=st.sampled_from([15e3, 3e4, 1.2e5, 1e6]), own=st.booleans()))


def tol(bound, prec):
    return EPS[prec] * bound


def judge_norm(h, want, ctx, axes, mean):
    """h is want divided by the root of its mean energy per example and link, all-zero links stay zero"""
    e = mean(np.abs(want) ** 2)
    out = np.where(e > 0, want / np.sqrt(np.where(e > 0, e, 1)), 0)
    return out, e


def fn_ofdm(case, ctx):
    import tensorflow as tf
    u = sut.utils()
    c, K, sp = case["c"], case["K"], case["sp"]
    a, tau, ta, tt = cir(c, None)
    ctx.nt(c["P"] > 1 and np.prod(c["dim"]) > 1)
    ctx.label(c["prec"], "normalized" if c["norm"] else "raw", "tau rank %d" % tau.ndim)
    if case["own"]:
        f = np.random.default_rng(c["rs"] + 1).uniform(-1, 1, K) * sp * K
        f = f.astype(tau.dtype)
        tf_f = tf.constant(f)
    else:
        tf_f = u.subcarrier_frequencies(K, sp, precision=c["prec"])
        f = np.asarray(tf_f)
    h = np.asarray(u.cir_to_ofdm_channel(tf_f, ta, tt, normalize=c["norm"]))
    t6 = full(tau, c["dim"])
    want = ref_ofdm(f.astype(float), a, t6)
    ctx.check(h.shape == want.shape, f"frequency response shape {h.shape}, expected {want.shape}")
    ctx.check(h.dtype == a.dtype, f"frequency response type {h.dtype}, expected {a.dtype}")
    amp = np.abs(a).max(axis=-1).sum(axis=-1)[..., None, None]
    bound = amp * (8 * np.pi * np.abs(f).max() * t6.max() + 20 + c["P"])
    if c["norm"]:
        m = lambda e: e.mean(axis=(2, 4, 5, 6), keepdims=True)
        want2, e = judge_norm(h, want, ctx, None, m)
        live = (e > (100 * tol(bound.max(), c["prec"])) ** 2) & (e > 1e-30 if c["prec"] == "single" else e >= 0)
        s = np.sqrt(np.where(live, e, 1))
        bound = (bound + np.sqrt(K * c["T"]) * bound.max(axis=(2, 4), keepdims=True)) / s + 50 * np.abs(want2)
        ok = np.broadcast_to(live | (e == 0), h.shape)
        ctx.check(np.all(np.isfinite(h)), "normalized frequency response not finite")
        ctx.check(np.all(np.abs(h - want2)[ok] <= tol(np.broadcast_to(bound, h.shape), c["prec"])[ok] + 1e-12 * 0), "normalized frequency response differs from the sum over paths scaled to unit mean energy")
        me = m(np.abs(h.astype(complex)) ** 2)[live]
        ctx.check(np.all(np.abs(me - 1) < (1e-3 if c["prec"] == "single" else 1e-9)), f"normalized frequency response has mean energy {me} instead of one per example and link")
    else:
        ctx.check(np.all(np.abs(h - want) <= tol(bound, c["prec"])), f"frequency response differs from sum of a exp(-j2pi f tau) by {np.abs(h - want).max()}, allowed {tol(bound, c['prec']).max()}")


def s_taps():
    return st.fixed_dictionaries(dict(c=s_cir(), W=st.sampled_from([1e6, 1e7, 1e8, 3.84e6]), lo=st.integers(-8, 3), n=st.integers(1, 24)))


def fn_taps(case, ctx):
    u = sut.utils()
    c, W, lo = case["c"], case["W"], case["lo"]
    hi = lo + case["n"] - 1
    a, tau, ta, tt = cir(c, W)
    ctx.nt(c["P"] > 1 and np.prod(c["dim"]) > 1)
    ctx.label(c["prec"], "normalized" if c["norm"] else "raw", "tau rank %d" % tau.ndim)
    h = np.asarray(u.cir_to_time_channel(W, ta, tt, lo, hi, normalize=c["norm"]))
    t6 = full(tau, c["dim"])
    want = ref_taps(W, a, t6, lo, hi)
    ctx.check(h.shape == want.shape, f"tap shape {h.shape}, expected {want.shape}")
    ctx.check(h.dtype == a.dtype, f"tap type {h.dtype}, expected {a.dtype}")
    amp = np.abs(a).max(axis=-1).sum(axis=-1)[..., None, None]
    bound = amp * (16 * (W * t6.max() + abs(lo) + abs(hi)) + 20 + c["P"])
    if c["norm"]:
        m = lambda e: e.sum(axis=6, keepdims=True).mean(axis=(2, 4, 5), keepdims=True)
        want2, e = judge_norm(h, want, ctx, None, m)
        live = (e > (300 * tol(bound.max(), c["prec"])) ** 2) & (e > 1e-30)
        s = np.sqrt(np.where(live, e, 1))
        b2 = bound.max(axis=(2, 4), keepdims=True) * np.sqrt(case["n"] * c["T"])
        bound = bound / s + b2 / s * (np.abs(want2) + 1) + 50
        ok = np.broadcast_to(live | (e == 0), h.shape)
        ctx.check(np.all(np.isfinite(h)), "normalized taps not finite")
        ctx.check(np.all(np.abs(h - want2)[ok] <= tol(np.broadcast_to(bound, h.shape), c["prec"])[ok]), "normalized taps differ from the sinc sum scaled to unit block energy")
        zero = np.broadcast_to(e == 0, h.shape)
        ctx.check(not np.any(h[zero]), "taps of an all-zero link not zero")
    else:
        ctx.check(np.all(np.abs(h - want) <= tol(bound, c["prec"])), f"taps differ from sum of a sinc(l - W tau) by {np.abs(h - want).max()}, allowed {tol(bound, c['prec']).max()}")


def s_fft():
    return st.fixed_dictionaries(dict(c=s_cir(8, 1), N=st.sampled_from([16, 31, 64, 72]), S=st.integers(1, 4), cp=st.integers(0, 8), sp=st.sampled_from([15e3, 3e4, 1.2e5]),
                                      lo=st.integers(-6, 0), extra=st.integers(0, 5), arb=st.booleans()))


def fn_fft(case, ctx):
    import tensorflow as tf
    u = sut.utils()
    from sionna.phy.ofdm import ResourceGrid
    c, N, S, lo = dict(case["c"], prec="single", norm=False, scale=1.), case["N"], case["S"], case["lo"]
    cp = min(case["cp"], N - 1)
    rg = ResourceGrid(num_ofdm_symbols=S, fft_size=N, subcarrier_spacing=case["sp"], cyclic_prefix_length=cp)
    T = int(rg.num_time_samples) + case["extra"]
    c["T"], W = T, float(rg.bandwidth)
    c["dim"] = [min(d, 2) for d in c["dim"]]
    lmax = N + lo - 1                                                       # window of N taps
    a, tau, ta, tt = cir(c, W)
    starts = [s * (N + cp) + cp for s in range(S)]
    ctx.nt(c["P"] > 1 and S > 1)
    ctx.label("arbitrary taps" if case["arb"] else "gridded delays", "cp %s" % (cp > 0))
    r = np.random.default_rng(c["rs"])
    if case["arb"]:
        n = int(r.integers(max(1, -lo), N + 1))                             # any window length
        h_t = (r.normal(size=(2, 3, T, n)) + 1j * r.normal(size=(2, 3, T, n))).astype(np.complex64)
        got = np.asarray(u.time_to_ofdm_channel(tf.constant(h_t), rg, lo))
        k = np.arange(lo, lo + n)
        sub = np.arange(N) - (N // 2)
        want = np.einsum("...tk,nk->...tn", h_t[:, :, starts].astype(complex), np.exp(-2j * np.pi * np.outer(sub, k) / N))
        ctx.check(got.shape == want.shape, f"shape {got.shape}, expected {want.shape}")
        ctx.close(got.view(np.float32), want.astype(np.complex128).view(float), "frequency response of the taps", 0, 3e-6 * np.sqrt(N) * np.abs(h_t).max() * np.sqrt(n) + 1e-6)
        return
    tau = (np.minimum(np.round(tau.astype(float) * W), lmax) / W).astype(np.float32)
    h_t = u.cir_to_time_channel(W, ta, tf.constant(tau), lo, lmax)
    got = np.asarray(u.time_to_ofdm_channel(h_t, rg, lo))
    f = u.subcarrier_frequencies(rg.fft_size, rg.subcarrier_spacing)
    of = np.asarray(u.cir_to_ofdm_channel(f, tf.gather(ta, starts, axis=-1), tf.constant(tau)))
    want = ref_ofdm(np.asarray(f).astype(float), a[..., starts], full(tau, c["dim"]))
    lim = np.abs(a).max() * c["P"] * 1e-6 * (W * tau.max() + 10) * 20
    ctx.check(got.shape == want.shape, f"shape {got.shape}, expected {want.shape}")
    ctx.check(np.abs(got - want).max() <= lim, f"frequency response through the taps differs from the impulse response's by {np.abs(got - want).max()}, allowed {lim}")
    ctx.check(np.abs(got - of).max() <= 2 * lim, "frequency response through the taps differs from cir_to_ofdm_channel's")


def s_grids():
    return st.fixed_dictionaries(dict(n=st.one_of(st.integers(1, 40), st.sampled_from([600, 1024, 4096, 4095])), sp=st.one_of(gen.fl(1., 1e6), st.sampled_from([15e3, .25])), W=gen.fl(1e3, 4e8),
                                      md=st.one_of(st.none(), st.just(0.), gen.fl(1e-12, 2e-5)), prec=st.sampled_from([None, "single", "double"])))


def fn_grids(case, ctx):
    import tensorflow as tf
    u = sut.utils()
    n, sp, p = case["n"], case["sp"], case["prec"]
    ctx.nt(n > 2)
    ctx.label("even" if n % 2 == 0 else "odd", str(p))
    dt = tf.float64 if p == "double" else tf.float32
    k = np.arange(n) - n // 2
    f = u.subcarrier_frequencies(n, sp, precision=p)
    e = EPS[p or "single"] * 4
    ctx.check(f.dtype == dt and f.shape == (n,), f"subcarrier grid {f.dtype} {f.shape}")
    ctx.close(np.asarray(f), k * sp, "subcarrier frequencies", e, 0)
    t, f = u.time_frequency_vector(n, sp, precision=p)
    ctx.check(t.dtype == dt and f.dtype == dt and t.shape == (n,) and f.shape == (n,), "time/frequency grid type or size")
    e = 5e-7                                                                # the sample duration passes through single precision
    ctx.close(np.asarray(t), k * sp, "time vector", e, 0)
    ctx.close(np.asarray(f), k / (sp * n), "frequency vector", e * 2, 0)
    W, md = case["W"], case["md"]
    lo, hi = u.time_lag_discrete_time_channel(W) if md is None else u.time_lag_discrete_time_channel(W, md)
    x = W * (3e-6 if md is None else md)
    ctx.check(int(lo) == -6, f"smallest lag {int(lo)}")
    ctx.check(int(np.ceil(x * (1 - 4e-7))) + 6 <= int(hi) <= int(np.ceil(x * (1 + 4e-7))) + 6, f"largest lag {int(hi)} for W*tau={x}")


def s_chain():
    return st.fixed_dictionaries(dict(c=gen.config(gen.array(4)), t=gen.topo(2, 2), T=st.integers(1, 3), K=st.integers(1, 16), sp=st.sampled_from([15e3, 1.2e5]), rs=gen.seeds(), norm=st.booleans()))


def fn_chain(case, ctx):
    u = sut.utils()
    import sionna.phy.channel as sc
    sut.seed(case["rs"])
    ch = gen.mk_channel(case["c"])
    gen.set_topo(ch, case["t"], case["c"]["h"])
    a, tau = ch(case["T"], 1e4)
    ctx.nt(a.shape[5] > 1)
    ctx.label(case["c"]["dir"])
    f = u.subcarrier_frequencies(case["K"], case["sp"])
    h = np.asarray(u.cir_to_ofdm_channel(f, a, tau, normalize=case["norm"]))
    an, tn = np.asarray(a), np.asarray(tau)
    want = ref_ofdm(np.asarray(f).astype(float), an, full(tn, an.shape[:5]))
    if case["norm"]:
        e = (np.abs(want) ** 2).mean(axis=(2, 4, 5, 6), keepdims=True)
        raw = np.abs(an).astype(float).sum(axis=5).max(axis=(2, 4, 5))[:, :, None, :, None, None, None]
        ok = (e > (1e-3 * raw) ** 2) & (e > 1e-34)                           # squared energies representable in single precision, no deep cancellation
        d = np.where(ok, np.abs(h - want / np.sqrt(np.where(ok, e, 1))), 0)
        ctx.check(d.max() <= 2e-2, f"normalized response of a real channel off by {d.max()}")
    else:
        amp = np.abs(an).sum(axis=5).max(axis=-1)[..., None, None]
        d = np.abs(h - want)
        lim = amp * (EPS["single"] * (8 * np.pi * np.abs(np.asarray(f)).max() * tn.max() + 60)) + 1e-38
        ctx.check(np.all(d <= lim), f"response of a real channel off by {(d / lim).max()} times the allowance")
    W = case["sp"] * 64
    lo, hi = u.time_lag_discrete_time_channel(W)
    g = np.asarray(u.cir_to_time_channel(W, a, tau, lo, hi))
    wt = ref_taps(W, an, full(tn, an.shape[:5]), int(lo), int(hi))
    amp = np.abs(an).sum(axis=5).max(axis=-1)[..., None, None]
    ctx.check(np.all(np.abs(g - wt) <= amp * EPS["single"] * (16 * (W * tn.max() + 20) + 60) + 1e-38), "taps of a real channel differ from the sinc sum")


SUBS = [Sub("ofdm", s_ofdm, fn_ofdm, 800, 12000, weight=1.), Sub("taps", s_taps, fn_taps, 800, 12000, weight=1.), Sub("fft", s_fft, fn_fft, 400, 6000, weight=1.),
        Sub("grids", s_grids, fn_grids, 300, 6000, weight=.5), Sub("chain", s_chain, fn_chain, 48, 900, shards=3, weight=2.)]
