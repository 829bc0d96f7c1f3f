import contextlib
import numpy as np
from hypothesis import strategies as st
from checks import c10_coefficients as c10
from harness import gen, ref, sut, tables
from harness.core import Sub

RULE = ("layout: random configuration and topology (several stations and terminals, different arrays at both ends); the output shapes, types, finiteness and path delays. "
        "endtoend: the rays, K-factors and initial phases drawn during a channel call (observed at the public ray and coefficient generators) plus the scenario's geometry "
        "are fed to the double-precision coefficient equations and laid out as documented; the call's own result must match. batch_arg: with and without batch size. "
        "Non-trivial: at least two terminals or stations, or several antennas at both ends.")
ASSUMPTIONS = ["the absolute phase of the LoS ray (a 1e8 rad argument in single precision) is free per link",
               "path loss and shadowing are switched off in endtoend (C13 decides them); one time sample (C18 decides the time evolution)"]


def base(arr, **kw):
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=gen.elevation(), h=gen.height(), rs=gen.seeds(), ut=arr, bs=arr, **kw))


def s_layout():
    return base(gen.array(max_ant=4), t=gen.topo(max_b=3, max_ut=4, stations=True), T=st.integers(1, 5), fs=st.sampled_from([1e3, 15e3, 1e6, 3e7]),
                pl=st.booleans(), sf=st.booleans(), agl=st.booleans(), dop=st.booleans(), call=st.sampled_from(["two", "three"]), n=st.integers(1, 3))


def fn_layout(case, ctx):
    sut.seed(case["rs"])
    ch = gen.mk_channel(case, enable_pathloss=case["pl"], enable_shadow_fading=case["sf"], always_generate_lsp=case["agl"], doppler_enabled=case["dop"])
    t = case["t"]
    gen.set_topo(ch, t, case["h"])
    nu, nb = (t["N"], gen.num_ant(case["ut"])), (t["nb"], gen.num_ant(case["bs"]))
    tx, rx = (nu, nb) if case["dir"] == "uplink" else (nb, nu)
    los = np.asarray(ch._scenario.los)
    ctx.nt(los[0].size > 1 or (nu[1] > 1 and nb[1] > 1))
    ctx.label(case["dir"], case["call"] + " arguments", "stations %d" % t["nb"])
    for _ in range(case["n"]):
        a, tau = ch(case["T"], case["fs"]) if case["call"] == "two" else ch(t["B"], case["T"], case["fs"])
        a, tau = np.asarray(a), np.asarray(tau)
        P = int(max(tables.value(case, s, "numClusters") for s in (True, False))) + 4
        ctx.check(a.ndim == 7 and a.shape[:5] == (t["B"],) + rx + tx and a.shape[6] == case["T"], f"coefficients {a.shape}, expected {(t['B'],) + rx + tx + ('paths', case['T'])} ({case['dir']})")
        ctx.check(tau.shape == (t["B"], rx[0], tx[0], a.shape[5]), f"delays {tau.shape}, coefficients {a.shape}")
        ctx.check(a.shape[5] <= P and (a.shape[5] == P or not (los.any() and not los.all())), f"{a.shape[5]} paths, the tables give at most {P}")
        ctx.check(a.dtype == np.complex64 and tau.dtype == np.float32, f"types {a.dtype}, {tau.dtype}")
        ctx.check(np.all(np.isfinite(a.view(np.float32))), "coefficients not finite")
        ctx.check(np.all(np.isfinite(tau)) and np.all(tau >= 0), "negative or non-finite delay")
        ctx.check(np.all(tau[..., 0] == 0), "first delay not zero")
        ctx.check(np.all(np.diff(tau, axis=-1) >= 0), "delays not ascending")
        w = np.sum(np.abs(a.astype(complex)) ** 2, axis=(2, 4, 6))          # [B, rx, tx, path]
        late = tau > .01                                                    # placeholders of unused clusters
        ctx.check(np.all(w[late] <= 1e-12 * np.broadcast_to(w.sum(-1, keepdims=True), w.shape)[late]), "power on a path later than 10 ms")


@contextlib.contextmanager
def observe(keep=lambda x: np.asarray(x).astype(float)):
    """record the rays and the phases drawn inside channel calls, at the package's public classes"""
    m = sut.load()
    R, C = m.RaysGenerator, m.ChannelCoefficientsGenerator
    r0, c0 = R.__call__, C.__call__
    log = {}

    def rays(self, lsp, *a, **k):
        out = r0(self, lsp, *a, **k)
        log["rays"] = {n: keep(getattr(out, n)) for n in ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr")}
        log["k"], log["ds"], log["sf"] = keep(lsp.k_factor), keep(lsp.ds), keep(lsp.sf)
        return out

    def coef(self, *a, **k):
        k.pop("debug", None)
        h, d, phi, t = c0(self, *a, debug=True, **k)
        log["phi"], log["t"] = keep(phi), keep(t)
        return h, d

    R.__call__, C.__call__ = rays, coef
    try:
        yield log
    finally:
        R.__call__, C.__call__ = r0, c0


def s_e2e():
    arr = gen.array(max_ant=4, patterns=("omni", "38.901", "dlp"))
    return base(arr, t=gen.topo(max_b=2, max_ut=3, stations=True, los=(None, True, True, False)), agl=st.booleans(), prec=st.sampled_from([None, "double"]))


def fn_e2e(case, ctx):
    sut.seed(case["rs"])
    import tensorflow as tf
    prec = case.get("prec")
    ch = gen.mk_channel(case, prec, enable_pathloss=False, enable_shadow_fading=False, always_generate_lsp=case["agl"])
    t = case["t"]
    a = gen.set_topo(ch, t, case["h"], tf.float64 if prec else None)
    with observe() as log:
        h, tau = ch(1, 1e6)
    ctx.check("phi" in log and "rays" in log, "HARNESS: generators not observed")
    judge(case, ctx, np.asarray(ch._scenario.los), a, log, h, tau, np.asarray(ch._scenario.distance_3d, float) if prec else None)


def judge(case, ctx, los, a, log, h, tau, slant=None):
    """the response against the coefficient equations fed with the observed draws and the given geometry (first time sample)"""
    h, tau = np.asarray(h).astype(complex)[..., :1], np.asarray(tau, float)
    R = log["rays"]
    # everything below is [B, station, terminal, ...]
    up = case["dir"] == "uplink"
    sw = (lambda v: np.swapaxes(v, 1, 2)) if up else (lambda v: v)
    d = a["ut_loc"].astype(float)[:, None] - a["bs_loc"].astype(float)[:, :, None]
    e = d / np.linalg.norm(d, axis=-1, keepdims=True)
    az, ze = np.arctan2(e[..., 1], e[..., 0]), np.arccos(np.clip(e[..., 2], -1, 1))     # station -> terminal
    # clusters are generated with the station as the departure side
    B, S, N = los.shape
    q = dict(p=sw(R["powers"]), tau=sw(R["delays"]), xpr=sw(R["xpr"]), k=sw(log["k"]), los=sw(los),
             d=np.zeros(sw(los).shape), cds=sw(tables.per_link(case, los, "cDS") * 1e-9), hb=a["bs_loc"][..., 2].astype(float), v=np.zeros((B, N, 3)))
    dep, arr = (("aoa", "zoa"), ("aod", "zod")) if up else (("aod", "zod"), ("aoa", "zoa"))
    q["aod"], q["zod"], q["aoa"], q["zoa"] = (sw(R[n]) for n in dep + arr)
    opp = lambda x: (x[0] + np.pi, np.pi - x[1])
    q["laod"], q["lzod"] = (sw(v) for v in (opp((az, ze)) if up else (az, ze)))
    q["laoa"], q["lzoa"] = (sw(v) for v in ((az, ze) if up else opp((az, ze))))
    bo, uo = a["bs_orientations"].astype(float), a["ut_orientations"].astype(float)
    q["to"], q["ro"] = (uo, bo) if up else (bo, uo)
    c = dict(case, tx=case["ut"] if up else case["bs"], rx=case["bs"] if up else case["ut"], end="tx" if up else "rx", sub=True, M=R["aoa"].shape[-1], T=1)
    M, n = c["M"], R["powers"].shape[-1]
    # clusters tied in power (unused ones) may be ordered either way; drop links whose two strongest are tied
    ts = np.zeros(1)
    nolos = dict(q, los=np.zeros_like(q["los"]))
    w0, wt, _ = c10.reference(c, nolos, log["phi"], ts)
    full, _, amp = c10.reference(c, dict(q, d=np.zeros(q["d"].shape)), log["phi"], ts)
    tol = np.zeros(full.shape)
    for j in range(2):
        tol = np.maximum(tol, np.abs(c10.reference(c, q, log["phi"], ts, np.random.default_rng(j))[0] - full))
    got = np.transpose(h, (0, 3, 1, 5, 2, 4, 6))                            # -> [B, tx, rx, path, rxant, txant, T]
    ctx.check(got.shape == full.shape, f"coefficients {h.shape} do not fit rays {R['aoa'].shape}")
    ctx.close(np.transpose(tau, (0, 2, 1, 3)), wt, "path delays", 1e-5, 1e-13)
    nl = q["los"][..., None, None, None, None]
    K = np.where(q["los"], q["k"], 0.)[:, :, :, None, None, None]
    want = np.where(nl, w0, full)
    # first path of LoS links: scaled NLoS part + LoS ray with a free common phase
    first_n = w0[:, :, :, 0] * np.sqrt(1 / (K + 1))
    L = full[:, :, :, 0] - first_n
    x = np.sum(np.conj(L) * (got[:, :, :, 0] - first_n), axis=(3, 4, 5))
    ph = np.exp(1j * np.angle(np.where(x == 0, 1, x)))[..., None, None, None]
    if slant is not None:
        # at double precision the phase of the LoS ray is that of the link's own slant range (which C04 and C22 judge)
        err = np.angle(ph[..., 0, 0, 0] * np.exp(-2j * np.pi * sw(slant) * case["fc"] / ref.C0))
        slack = 2e-3 + 12 * tol[:, :, :, 0].max((3, 4, 5)) * np.sqrt(L[0, 0, 0].size) / np.sqrt(np.maximum(np.sum(np.abs(L) ** 2, (3, 4, 5)), 1e-30))
        bad = q["los"] & (slack < .3) & (np.abs(err) > slack)
        ctx.label("LoS phase judged" if (q["los"] & (slack < .3)).any() else "no LoS phase")
        ctx.check(not bad.any(), lambda: f"{case['dir']}: phase of the LoS rays differs from that of the slant range by {err[bad]} rad (transmitter, receiver {np.argwhere(bad)[:, 1:].tolist()})")
    want = np.where(nl, w0 * np.sqrt(1 / (K[:, :, :, None] + 1)), full)
    want[:, :, :, 0] = np.where(q["los"][..., None, None, None], first_n + L * ph, full[:, :, :, 0])
    rms = np.sqrt(np.mean(np.abs(full) ** 2, axis=(3, 4, 5, 6), keepdims=True))
    lim = 12 * tol + 5e-4 * (rms + np.abs(full)) + 1e-6
    lim[:, :, :, 0] += 2e-3 * np.abs(L)
    # two strongest clusters nearly tied: which ones are split is a matter of rounding
    s3 = np.sort(q["p"], -1)
    tied = (s3[..., -2] - s3[..., -3] < 1e-5 * s3[..., -2]) if n > 2 else np.zeros(q["los"].shape, bool)
    bad = (np.abs(got - want) > lim) & ~tied[..., None, None, None, None]
    ctx.nt(los[0].size > 1 or (gen.num_ant(case["ut"]) > 1 and gen.num_ant(case["bs"]) > 1))
    ctx.label(case["dir"], "LoS mix" if los.any() and not los.all() else "LoS" if los.all() else "NLoS")
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, np.abs(got - want) / lim, 0)), bad.shape)
        ctx.fail(f"{case['dir']} response of example {i[0]}, transmitter {i[1]}, receiver {i[2]}, path {i[3]}, antennas {i[4:6]}: got {got[i]:.5f}, rays and geometry give {want[i]:.5f} "
                 f"(tolerance {lim[i]:.1e}, LoS {bool(q['los'][i[:3]])}); {int(bad.sum())} of {bad.size} differ")


def s_barg():
    return base(gen.siso(("omni", "38.901")), t=gen.topo(max_b=3, max_ut=3, stations=True), T=st.integers(1, 4), fs=st.sampled_from([1e3, 1e6]), agl=st.booleans(), kw=st.booleans())


def fn_barg(case, ctx):
    """the interface used by Sionna's channel layers passes the batch size first"""
    out = []
    for three in (False, True):
        sut.seed(case["rs"])
        ch = gen.mk_channel(case, always_generate_lsp=case["agl"])
        gen.set_topo(ch, case["t"], case["h"])
        out.append([np.asarray(v) for v in (ch(case["t"]["B"], case["T"], case["fs"]) if three else ch(case["T"], case["fs"]))])
    ctx.nt(case["t"]["N"] * case["t"]["nb"] > 1)
    (a, d), (a3, d3) = out
    ctx.check(a.shape == a3.shape and np.array_equal(a, a3) and np.array_equal(d, d3), "call with a batch size differs from the call without under the same seed")


SUBS = [Sub("layout", s_layout, fn_layout, quick=150, thorough=3000, shards=4, weight=6), Sub("endtoend", s_e2e, fn_e2e, quick=160, thorough=3000, shards=5, weight=6),
        Sub("batch_arg", s_barg, fn_barg, quick=40, thorough=500, shards=2, weight=4)]
