import numpy as np
from hypothesis import strategies as st
from harness import gen, ref, stat, sut
from harness.core import Sub

RULE = ("A case is a pair of arrays (1-4 antennas, any pattern/polarization/spacing), 1-3 batch examples, 1-3 transmitters and receivers, station heights on both "
        "sides of 600 km (mixed within a batch), the moving end, orientations, velocities, rays (20 per cluster with sub-clustering, any number without), "
        "K-factors, LoS mask and time grid. Coefficients and delays are compared with a float64 reference evaluated with the reported initial phases; "
        "phases: those phases are uniform and independent over every axis and between calls. "
        "Non-trivial: several links with different LoS states, or multi-antenna/dual-polarized ends, or heights on both sides of 600 km.")
ASSUMPTIONS = ["the satellite's random orbit direction is free: its phase must be common to all links of the station, a pure rotation in time and bounded by the orbital speed",
               "tolerance = single-precision rounding plus the reference's own sensitivity to 2e-6 rad perturbations of its angles",
               "disabling Doppler is judged on the satellite's contribution only"]


def s(sub):
    arr = gen.array(max_ant=4)
    return st.fixed_dictionaries(dict(
        tx=arr, rx=arr, fc=gen.carrier(), B=st.integers(1, 3), ntx=st.integers(1, 3), nrx=st.integers(1, 3),
        ncl=st.integers(2, 5) if sub else st.integers(1, 4), M=st.just(20) if sub else st.integers(1, 12), sub=st.just(sub),
        end=st.sampled_from(["rx", "tx"]), hs=st.lists(gen.height(), min_size=1, max_size=3), el=gen.fl(10., 90.), dop=st.sampled_from([True, True, False]),
        los=st.sampled_from(["mix", "mix", "all", "none"]), k=gen.fl(-10., 20.), cds=gen.fl(.5, 5.), ds=gen.fl(-8.5, -6.5),
        orient=st.sampled_from(["random", "random", "zero", "right"]), v=st.sampled_from([0., 30., 1000.]), T=st.integers(1, 3),
        fs=st.sampled_from([1e7, 1e5, 1e4]), dist=gen.fl(.1, 30.), rs=gen.seeds()))


def fields(d, R, theta, phi):
    """F [..., antennas, 2] in the global frame"""
    pos, pol = ref.elem_positions(d, 1.0)
    f = [ref.gcs_field(d["pat"], s_, R, theta, phi) for s_ in ref.SLANTS[d["pt"]]]
    return np.stack([f[p] for p in pol], -2)


def wave(case, c, aoa, aod, zoa, zod, Phi, lam):
    """[B,tx,rx,cl,ray,rxant,txant] for the given angles and 2x2 matrices"""
    Rt = ref.rot(*np.moveaxis(c["to"], -1, 0))[:, :, None, None, None]
    Rr = ref.rot(*np.moveaxis(c["ro"], -1, 0))[:, None, :, None, None]
    sh = aoa.shape
    Ft = fields(case["tx"], np.broadcast_to(Rt, sh + (3, 3)), zod, aod)
    Fr = fields(case["rx"], np.broadcast_to(Rr, sh + (3, 3)), zoa, aoa)
    H = np.einsum("...ua,...ab,...sb->...us", Fr, Phi, Ft)
    pt, pr = ref.elem_positions(case["tx"], lam)[0], ref.elem_positions(case["rx"], lam)[0]
    dt = np.einsum("...ij,sj->...si", np.broadcast_to(Rt, sh + (3, 3)), pt)
    dr = np.einsum("...ij,uj->...ui", np.broadcast_to(Rr, sh + (3, 3)), pr)
    et = np.einsum("...si,...i->...s", dt, ref.unit(zod, aod))
    er = np.einsum("...ui,...i->...u", dr, ref.unit(zoa, aoa))
    return H * np.exp(2j * np.pi / lam * (er[..., :, None] + et[..., None, :]))


def reference(case, c, phi, t, jit=None):
    lam = ref.C0 / case["fc"]
    ang = {n: c[n] for n in ("aoa", "aod", "zoa", "zod", "laoa", "laod", "lzoa", "lzod")}
    if jit is not None:
        ang = {n: v + 2e-6 * jit.uniform(-1, 1, v.shape) for n, v in ang.items()}
    sat = c["hb"] >= 6e5                                                    # [B, nbs]
    sat = (sat[:, :, None] if case["end"] == "rx" else sat[:, None, :])[..., None, None, None, None]
    psi = np.radians(108. / (case["fc"] / 1e9) ** 2)
    Fa = np.where(sat, np.array([[np.cos(psi), -np.sin(psi)], [np.sin(psi), np.cos(psi)]]), np.eye(2))
    e = np.exp(1j * phi)
    q = np.sqrt(1 / c["xpr"])
    Phi = np.stack([np.stack([e[..., 0], q * e[..., 1]], -1), np.stack([q * e[..., 2], e[..., 3]], -1)], -2) @ Fa
    H = wave(case, c, ang["aoa"], ang["aod"], ang["zoa"], ang["zod"], Phi, lam)
    v = c["v"][:, None] if case["end"] == "rx" else c["v"][:, :, None]      # [B,tx,rx,3]

    def dop(az, ze):
        w = 2 * np.pi / lam * np.einsum("...cri,...i->...cr", ref.unit(ze, az), np.broadcast_to(v, az.shape[:3] + (3,)))
        return np.exp(1j * w[..., None] * t)

    D = dop(ang["aoa"], ang["zoa"]) if case["end"] == "rx" else dop(ang["aod"], ang["zod"])
    H = H[..., None] * D[..., None, None, :] * np.sqrt(c["p"] / case["M"])[..., None, None, None, None]
    # reduction
    B, X, Y, N = c["p"].shape
    out = np.zeros((B, X, Y, N + (4 if case["sub"] else 0)) + H.shape[5:], complex)
    tau = np.zeros(out.shape[:4])
    groups = [[0, 1, 2, 3, 4, 5, 6, 7, 18, 19], [8, 9, 10, 11, 16, 17], [12, 13, 14, 15]]
    for b in range(B):
        for x in range(X):
            for y in range(Y):
                cl, de = [], []
                strong = np.argsort(-c["p"][b, x, y])[:2] if case["sub"] else []
                for n in range(N):
                    h = H[b, x, y, n]
                    if n in strong:
                        for g, o in zip(groups, (0, 1.28, 2.56)):
                            cl.append(h[g].sum(0)); de.append(c["tau"][b, x, y, n] + o * c["cds"][b, x, y])
                    else:
                        cl.append(h.sum(0)); de.append(c["tau"][b, x, y, n])
                i = np.argsort(de, kind="stable")
                out[b, x, y] = np.array(cl)[i]; tau[b, x, y] = np.array(de)[i]
    # LoS ray
    exp = lambda a: a[..., None, None]
    L = wave(case, c, exp(ang["laoa"]), exp(ang["laod"]), exp(ang["lzoa"]), exp(ang["lzod"]), np.diag([1., -1.]) @ Fa + 0j, lam)[..., 0, 0, :, :]
    DL = (dop(exp(ang["laoa"]), exp(ang["lzoa"])) if case["end"] == "rx" else dop(exp(ang["laod"]), exp(ang["lzod"])))[..., 0, 0, :]
    L = L[..., None] * DL[..., None, None, :] * np.exp(2j * np.pi * c["d"] / lam)[..., None, None, None]
    K = c["k"][..., None, None, None]
    o = out.copy()
    o = o * np.sqrt(1 / (K[:, :, :, None] + 1))
    o[:, :, :, 0] += L * np.sqrt(K / (K + 1))
    out = np.where(c["los"][..., None, None, None, None], o, out)
    return out, tau, np.abs(L)


def inputs(case):
    r = np.random.default_rng(case["rs"])
    B, X, Y, N, M = case["B"], case["ntx"], case["nrx"], case["ncl"], case["M"]
    S = (B, X, Y, N, M)
    U = r.uniform
    ori = {"random": lambda n: U(-np.pi, np.pi, (B, n, 3)), "zero": lambda n: np.zeros((B, n, 3)),
           "right": lambda n: r.integers(-2, 3, (B, n, 3)) * np.pi / 2 + (0 if M < 0 else 0)}[case["orient"]]
    c = dict(aoa=U(-np.pi, np.pi, S), aod=U(-np.pi, np.pi, S), zoa=U(.02, np.pi - .02, S), zod=U(.02, np.pi - .02, S),
             xpr=10 ** r.normal(.8, .5, S), laoa=U(-np.pi, np.pi, S[:3]), laod=U(-np.pi, np.pi, S[:3]), lzoa=U(.02, np.pi - .02, S[:3]),
             lzod=U(.02, np.pi - .02, S[:3]), to=ori(X), ro=ori(Y), d=case["dist"] * U(.5, 1, S[:3]),
             k=10 ** ((case["k"] + U(-5, 5, S[:3])) / 10), cds=case["cds"] * 1e-9 * U(.5, 1, S[:3]))
    p = r.exponential(1., S[:4]) + 1e-3
    c["p"] = p / p.sum(-1, keepdims=True)
    tau = np.sort(10 ** case["ds"] * r.exponential(1., S[:4]), -1)
    c["tau"] = tau - tau[..., :1]
    c["los"] = {"mix": U(0, 1, S[:3]) < .5, "all": np.ones(S[:3], bool), "none": np.zeros(S[:3], bool)}[case["los"]]
    nb, nu = (X, Y) if case["end"] == "rx" else (Y, X)
    c["hb"] = np.resize(case["hs"], (B, nb))
    c["v"] = case["v"] * U(-1, 1, (B, nu, 3))
    return {k: v if v.dtype == bool else v.astype(np.float32).astype(float) for k, v in c.items()}


def run(case, c, precision=None):
    import tensorflow as tf
    m = sut.load()
    sut.seed(case["rs"])
    f = lambda v: tf.constant(v if v.dtype == bool else v.astype(np.float64 if precision == "double" else np.float32))
    topo = m.Topology(velocities=f(c["v"]), moving_end=case["end"], los_aoa=f(c["laoa"]), los_aod=f(c["laod"]), los_zoa=f(c["lzoa"]), los_zod=f(c["lzod"]),
                      los=f(c["los"]), distance_3d=f(c["d"]), tx_orientations=f(c["to"]), rx_orientations=f(c["ro"]), bs_height=f(c["hb"]),
                      elevation_angle=case["el"], doppler_enabled=case["dop"])
    rays = m.Rays(delays=f(c["tau"]), powers=f(c["p"]), aoa=f(c["aoa"]), aod=f(c["aod"]), zoa=f(c["zoa"]), zod=f(c["zod"]), xpr=f(c["xpr"]))
    g = m.ChannelCoefficientsGenerator(case["fc"], gen.mk_array(case["tx"], case["fc"], precision), gen.mk_array(case["rx"], case["fc"], precision), case["sub"], **({"precision": precision} if precision else {}))
    h, d, phi, t = g(case["T"], case["fs"], f(c["k"]), rays, topo, f(c["cds"]) if case["sub"] else None, True)
    return np.asarray(h), np.asarray(d, float), np.asarray(phi, float), np.asarray(t, float)


def fn(case, ctx):
    c = inputs(case)
    h, d, phi, t = run(case, c)
    lam = ref.C0 / case["fc"]
    B, X, Y, N = c["p"].shape
    P = N + (4 if case["sub"] else 0)
    na = gen.num_ant(case["rx"]), gen.num_ant(case["tx"])
    ctx.check(h.shape == (B, X, Y, P) + na + (case["T"],), f"coefficients {h.shape}, expected {(B, X, Y, P) + na + (case['T'],)}")
    ctx.check(d.shape == (B, X, Y, P), f"delays {d.shape}")
    ctx.check(phi.shape == (B, X, Y, N, case["M"], 4) and np.all(np.abs(phi) <= np.pi + 1e-5), f"initial phases {phi.shape} in {phi.min()}..{phi.max()}")
    ctx.close(t, np.arange(case["T"]) / case["fs"], "sample times", 1e-6, 0)
    sat = c["hb"] >= 6e5
    ctx.nt((c["los"].any() and not c["los"].all()) or max(na) > 1 or (sat.any() and not sat.all()))
    ctx.label("dual" if "dual" in (case["tx"]["pol"], case["rx"]["pol"]) else "single", case["end"] + " moves",
              "satellite" if sat.all() else "HAPS" if not sat.any() else "mixed heights")
    want, tau, amp = reference(case, c, phi, t)
    tol = np.zeros(want.shape)
    for j in range(2):
        tol = np.maximum(tol, np.abs(reference(case, c, phi, t, np.random.default_rng(j))[0] - want))
    ctx.close(d, tau, "path delays", 1e-5, 1e-13)
    rms = np.sqrt(np.mean(np.abs(want) ** 2, axis=(3, 4, 5, 6), keepdims=True))
    ph = 2 * np.pi * c["d"] / lam * 3e-7
    tol = 6 * tol + 3e-4 * (rms + np.abs(want)) + 1e-6
    tol[:, :, :, 0] += (ph * c["los"])[..., None, None, None] * amp
    tol += np.abs(want) * 2e-6 * 2 * np.pi / lam * case["v"] * t.max()
    if "aperture" in (case["tx"]["pat"], case["rx"]["pat"]):
        # side lobes 0.1 rad wide and nulls: rounding of the local angles near boresight matters
        tol += 2e-2 * np.abs(want).max(axis=(3, 4, 5, 6), keepdims=True) + 1e-3
    # satellite rotation: common to the station, pure, bounded
    nb = c["hb"].shape[1]
    for b in range(B):
        for k in range(nb):
            sl = (b, k) if case["end"] == "rx" else (b, slice(None), k)
            g, w, tl = h[sl], want[sl], tol[sl]
            z = np.sum(np.conj(w) * g, axis=tuple(range(g.ndim - 1)))
            E = np.sum(np.abs(w) ** 2, axis=tuple(range(g.ndim - 1)))
            rot = np.ones(len(t), complex)
            if sat[b, k] and case["dop"] and len(t) > 1 and np.all(np.abs(z) > .3 * E) and np.all(E > 1e-8):
                wmax = 2 * np.pi / lam * ref.sat_speed(c["hb"][b, k], case["el"])
                rot = np.where(np.arange(len(t)) == 0, 1, z / np.abs(z))
                if wmax * t[1] < 2.5:
                    a = np.angle(rot[1])
                    ctx.check(abs(a) <= wmax * t[1] * 1.001 + 2e-3, f"satellite phase advance {a} rad exceeds the projected orbital speed's {wmax * t[1]}")
                for i in range(2, len(t)):
                    x = np.angle(rot[i] / rot[1] ** i)
                    ctx.check(abs(x) < 5e-3 + 1e-6 * wmax * t[i] + 4 * float(np.mean(tl) / np.sqrt(np.mean(np.abs(w) ** 2))), f"satellite rotation not uniform in time ({x} rad)")
                tl = tl + np.abs(w) * (np.sum(np.abs(w) * tl, axis=tuple(range(g.ndim - 1))) / E)   # the estimate's own error
            bad = np.abs(g - w * rot) > tl + 2e-6 * np.abs(w) * 2 * np.pi / lam * 7600 * t.max() * bool(sat[b, k])
            if bad.any():
                i = np.unravel_index(np.argmax(np.where(bad, np.abs(g - w * rot), 0)), bad.shape)
                ctx.fail(f"coefficient of example {b}, station {k}, index {tuple(int(q) for q in i)} (height {c['hb'][b, k]:.0f} m): got {g[i]:.5f}, "
                         f"expected {(w * rot)[i]:.5f} (tolerance {tl[i]:.1e}); {int(bad.sum())} of {bad.size} differ")


def fn_phases(case, ctx):
    """initial phases: uniform, and independent over links, clusters, rays, polarization pairs and calls"""
    c = inputs(case)
    ph = [run(case, c)[2], run(dict(case, rs=case["rs"] ^ 1), c)[2]]
    ctx.nt(True)
    ctx.label("stations" if case["ntx"] > 1 else "one transmitter")
    p = ph[0]
    ctx.check(stat.ks_ok(p, lambda x: np.clip((x + np.pi) / (2 * np.pi), 0, 1)), f"initial phases not uniform: in {p.min():.3f}..{p.max():.3f}, mean {p.mean():.3f}")
    z = np.exp(1j * p)

    def indep(u, v, what):
        for w, k in ((u * np.conj(v), "differ by a constant"), (u * v, "sum to a constant")):
            r = abs(np.mean(w)) * np.sqrt(w.size)
            ctx.check(r < 6.5, f"initial phases of different {what} are not independent: they {k} on average ({r / np.sqrt(w.size):.3f}, {w.size} pairs)")
    for ax, nm in enumerate(("batch examples", "transmitters", "receivers", "clusters", "rays", "polarization pairs")):
        for lag in (1, 2, 3):
            if z.shape[ax] > lag:
                indep(z.take(range(lag, z.shape[ax]), ax).ravel(), z.take(range(z.shape[ax] - lag), ax).ravel(), nm)
    indep(z.ravel(), np.exp(1j * ph[1]).ravel(), "seeds")


def s_phases():
    return s(True).flatmap(lambda c: st.tuples(st.integers(2, 6), st.integers(1, 3), st.integers(1, 3)).map(lambda q: dict(c, B=q[0], ntx=q[1], nrx=q[2], T=1)))


SUBS = [Sub("system_level", lambda: s(True), fn, quick=350, thorough=6000, shards=6, weight=10),
        Sub("no_subclusters", lambda: s(False), fn, quick=200, thorough=3000, shards=4, weight=6),
        Sub("phases", s_phases, fn_phases, quick=50, thorough=1000, shards=2, weight=3)]
