import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss
from harness import gen, raysut, stat, sut, tables
from harness.core import Sub

RULE = ("A case is an environment, direction, carrier, elevation, station height, a LoS/NLoS/indoor mix, a geometry and the angular spreads and K-factors "
        "handed to the ray generator. Cluster directions are recovered from the ray angles (up to the fold at the poles). Non-trivial: several states in the "
        "batch, a high-altitude platform (spread on the station side), or angles that wrap or fold.")
ASSUMPTIONS = ["station heights between 100 and 200 km are not judged for the station-side spread",
               "distribution statements at false-alarm probability < 1e-8 on 300-3000 links per case"]
OFF = np.array([.0447, .1413, .2492, .3715, .5129, .6797, .8844, 1.1481, 1.5195, 2.1551])
OFF = np.stack([OFF, -OFF], 1).ravel()
SO = np.sort(OFF)


def spread(n):
    return {"aoa": "asa", "aod": "asd", "zoa": "zsa", "zod": "zsd"}[n]


def cluster_spread(case, los, n):
    if n == "zod":
        return .375 * 10. ** tables.per_link(case, los, "muZSD")
    return tables.per_link(case, los, {"aoa": "cASA", "aod": "cASD", "zoa": "cZSA"}[n])


def wrap(x):
    return x - 360. * np.round(x / 360.)


def fold(x):
    return np.abs(wrap(x))


def azimuth_centre(x, c):
    """x [M,20] degrees, c [M]: centre and residual of the sorted offsets"""
    d = wrap(x - x[:, :1])
    m = d.mean(1, keepdims=True)
    return wrap(x[:, :1] + m)[:, 0], np.abs(np.sort(d - m, 1) - c[:, None] * SO).max(1), d - m


def zenith_centre(x, c):
    """folded centre and residual: the best of the 20 explanations of the first ray"""
    best = np.full(len(x), np.inf); cen = np.zeros(len(x))
    xs = np.sort(x, 1)
    for o in OFF:
        k = x[:, 0] - c * o
        r = np.abs(np.sort(fold(k[:, None] + c[:, None] * OFF), 1) - xs).max(1)
        cen = np.where(r < best, fold(k), cen); best = np.minimum(r, best)
    return cen, best


def directions(case, los, R):
    """centres [links, clusters] in degrees, and residuals, of each angle"""
    out = {}
    N = R["powers"].shape[-1]
    for n in ("aoa", "aod", "zoa", "zod"):
        x = np.degrees(R[n]).reshape(-1, 20)
        c = np.repeat(cluster_spread(case, los, n).ravel(), N)
        cen, res = (azimuth_centre(x, c)[:2] if n[0] == "a" else zenith_centre(x, c))
        out[n] = cen.reshape(-1, N), res.reshape(-1, N)
    return out


def los_dirs(a, los):
    """LoS angles in degrees, in float64 from the positions"""
    B, N = a["ut_loc"].shape[:2]
    d = a["ut_loc"].astype(float)[:, None] - a["bs_loc"].astype(float)[:, :, None]
    r = np.linalg.norm(d, axis=-1)
    aod = np.degrees(np.arctan2(d[..., 1], d[..., 0])); zod = np.degrees(np.arccos(d[..., 2] / r))
    return dict(aod=aod, zod=zod, aoa=wrap(aod + 180), zoa=180 - zod), np.linalg.norm(d[..., :2], axis=-1)


def s(maxb, n, geo=True):
    return st.fixed_dictionaries(dict(
        env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=raysut.elev_notie(),
        h=st.one_of(gen.fl(8e3, 5e4), gen.fl(2.1e5, 2e6), st.sampled_from([6e5, 2e4, 1e4])),
        t=gen.topo(max_b=1, max_ut=n, stations=True, los=(None, True, True, False)), B=st.integers(1, maxb), rs=gen.seeds(),
        ds=gen.fl(-9., -6.), dspread=st.sampled_from([0., 0.5]), k=gen.fl(-10., 30.), kspread=st.sampled_from([0., 5.]),
        asa=raysut.spr(104.), asd=raysut.spr(104.), zsa=raysut.spr(52.), zsd=raysut.spr(52.), aspread=st.sampled_from([0., .2])))


def satellite(a, los):
    return np.broadcast_to(a["bs_loc"][:, :, None, 2] > 1.9e5, los.shape)


def rays(case, ctx):
    return raysut.rays_of(case, ctx, **{k: case[k] for k in ("asa", "asd", "zsa", "zsd")})


def tol(case, D2, h):
    # float32 degrees: azimuth of a terminal almost below the station is ill conditioned
    return 2e-3 + np.degrees(3e-7 * 3e5 / np.maximum(D2, 1e-3))


def magnitude(case, los, L, n):
    """largest inverse-law angle of a link in degrees (single precision loses about 1e-7 of it)"""
    kd = 10 * np.log10(L["k_factor"])
    sp = L[spread(n)]
    if n[0] == "a":
        c = tables.per_link(case, los, "CPhiNLoS") * np.where(los, 1.1035 - .028 * kd - .002 * kd ** 2 + .0001 * kd ** 3, 1.)
        return 2 * sp / 1.4 * 3.72 / np.abs(c)
    c = tables.per_link(case, los, "CThetaNLoS") * np.where(los, 1.3086 + .0339 * kd - .0077 * kd ** 2 + .0002 * kd ** 3, 1.)
    return sp * 13.82 / np.abs(c)


def fn_struct(case, ctx):
    sc, a, los, L, R = rays(case, ctx)
    N = R["powers"].shape[-1]
    nc = np.where(los, int(tables.value(case, True, "numClusters")), int(tables.value(case, False, "numClusters"))).ravel()
    used = np.arange(N) < nc[:, None]
    sat = satellite(a, los)
    ctx.nt((los.any() and not los.all()) or not sat.all())
    sat = sat.ravel()
    ctx.label("satellite" if sat.all() else "mixed heights" if sat.any() else "HAPS", "LoS mix" if los.any() and not los.all() else "one state")
    for n in ("aoa", "aod"):
        ctx.check(np.all(np.isfinite(R[n])) and np.abs(R[n]).max() <= np.pi * (1 + 1e-6), f"{n} outside (-180,180] degrees: {np.degrees(np.abs(R[n]).max())}")
    for n in ("zoa", "zod"):
        ctx.check(np.all(np.isfinite(R[n])) and R[n].min() >= -1e-6 and R[n].max() <= np.pi * (1 + 1e-6), f"{n} outside [0,180] degrees: {np.degrees([R[n].min(), R[n].max()])}")
    ctx.check(np.all(np.isfinite(R["xpr"])) and np.all(R["xpr"] > 0), "cross-polarization ratio not positive")
    T, D2 = los_dirs(a, los)
    dirs = directions(case, los, R)
    lf = los.ravel()
    for n, (cen, res) in dirs.items():
        # float32: angles up to ~1000 degrees before wrapping
        fine = 1e-6 * magnitude(case, los, L, n).ravel()
        lim = (4e-3 if n[0] == "a" else 6e-3) + fine[:, None]
        ctx.check(np.all((res <= lim)[used]), f"{n}: rays are not centre + tabulated offset x cluster spread (residual {res[used].max():.4f} deg)")
        t = T[n].ravel()
        tl = 6e-3 + fine + (tol(case, D2, case["h"]).ravel() if n[0] == "a" else 0)
        dev = np.abs(wrap(cen - t[:, None])) if n[0] == "a" else np.abs(cen - t[:, None])
        w = lf & ((D2.ravel() > 1.) | (n[0] == "z"))
        ctx.check(np.all((dev[:, 0] <= tl)[w]), lambda: f"{n}: first cluster of a LoS link {dev[:, 0][w].max():.4f} deg off the LoS direction")
        if sat.any() and n in ("aod", "zod"):
            x = np.where(n == "zod", .05 * ~lf, 0.) + tl
            w2 = sat & ((D2.ravel() > 1.) | (n == "zod"))
            ctx.check(np.all((dev <= x[:, None] * np.ones_like(dev))[w2][used[w2]]), lambda: f"{n}: cluster {dev[w2][used[w2]].max():.3f} deg off the LoS direction on the satellite side")


def mix_cdf(n, los_state, x, mu, s0, base):
    """probability of a centre <= x when the unwrapped centre is base + D; mu [M,N] inverse-law angles, s0 [M]"""
    def F(v, k):
        # D = X_k mu_k + Y_k - (X_1 mu_1 + Y_1)   (LoS)    or   X_k mu_k + Y_k
        if los_state:
            return np.mean([ss.norm.cdf(v, a * mu[:, k] + b * mu[:, 0], np.sqrt(2) * s0) for a in (1, -1) for b in (1, -1)], 0)
        return np.mean([ss.norm.cdf(v, a * mu[:, k], s0) for a in (1, -1)], 0)
    def P(x, k):
        t = 0.
        for j in range(-8, 9):
            if n[0] == "a":
                t = t + F(x + 360 * j - base, k) - F(-180. + 360 * j - base, k)
            else:
                t = t + F(x + 360 * j - base, k) - F(-x + 360 * j - base, k)
        return t
    return P


def fn_law(case, ctx, names=("aoa", "zoa", "aod", "zod"), states=(True, False)):
    sc, a, los, L, R = rays(case, ctx)
    sat = satellite(a, los)
    T, D2 = los_dirs(a, los)
    dirs = directions(case, los, R)
    indoor = np.broadcast_to(a["in_state"][:, None], los.shape)
    ut0 = np.zeros(los.shape, bool); ut0[:, 0, 0] = True
    Z = {}
    for state, ins in ((True, False), (False, False), (False, True)):
        ws = (los == state) & (indoor == ins) & ut0
        if state not in states:
            continue
        nc = int(tables.value(case, state, "numClusters"))
        for n in names:
            w = ws & ~sat if n in ("aod", "zod") else ws
            if n == "zod" and not state:
                # the table's height-dependent zenith offset (< 0.04 degrees) must not matter
                w = w & (D2 > 1000.) & (L["zsd"] > .5)
            if w.sum() < 100:
                continue
            K = L["k_factor"][w]
            kd = 10 * np.log10(K)
            P = R["powers"][w][:, :nc]
            if state:
                P = P / (K + 1)[:, None]
                P[:, 0] += K / (K + 1)
            z = np.clip(P / P.max(1, keepdims=True), 1e-6, 1.)
            sp = L[spread(n)][w]
            if n[0] == "a":
                c = tables.value(case, state, "CPhiNLoS") * np.where(state, 1.1035 - .028 * kd - .002 * kd ** 2 + .0001 * kd ** 3, 1.)
                mu = 2 * sp[:, None] / 1.4 * np.sqrt(-np.log(z)) / c[:, None]
            else:
                c = tables.value(case, state, "CThetaNLoS") * np.where(state, 1.3086 + .0339 * kd - .0077 * kd ** 2 + .0002 * kd ** 3, 1.)
                mu = -sp[:, None] * np.log(z) / c[:, None]
            base = T[n][w] if not (n == "zoa" and ins) else np.full(w.sum(), 90.)
            cen, res = dirs[n]
            cen = cen[w.ravel()]
            if np.median(sp) < .05:
                continue
            okl = (np.abs(c) > .05) & (np.abs(mu).max(1) < 1500)
            if okl.sum() < 100:
                continue
            ctx.label(f"{n} {'LoS' if state else 'indoor' if ins else 'NLoS'}")
            ctx.nt(True)
            Pc = mix_cdf(n, state, None, mu[okl], sp[okl] / 7., base[okl])
            for k in range(1 if state else 0, nc):
                u = np.clip(Pc(cen[okl, k], k), 0, 1)
                ctx.check(stat.ks_ok(u, lambda v: v), f"{n}: direction of cluster {k} does not follow the 3GPP angle law ({case['env']}, {case['dir']}, {case['el']} deg, "
                          f"{'LoS' if state else 'indoor' if ins else 'NLoS'}, spread {np.median(sp):.2f}): mean rank {u.mean():.3f}")
                Z[n, state, ins, k] = (w, okl, u)
    # arrival azimuth and zenith directions are drawn independently
    for (n, state, ins, k), (w, okl, u) in Z.items():
        if n == "aoa" and ("zoa", state, ins, k) in Z:
            w2, okl2, v = Z["zoa", state, ins, k]
            b = okl & okl2
            f = np.full(len(okl), np.nan); g = f.copy(); f[okl] = u; g[okl2] = v
            if b.sum() < 100: continue
            c = np.corrcoef(f[b], g[b])[0, 1]
            ctx.check(abs(c) < 1.2 * stat.corr_bound(b.sum()), f"azimuth and zenith directions of cluster {k} correlated ({c:.3f})")


def s_law():
    return s(1, 2).flatmap(lambda c: st.sampled_from([400, 1500, 3000]).map(lambda b: dict(c, B=b)))


def fn_couple(case, ctx):
    """coupling: random, uniform and independent permutations inside clusters"""
    sc, a, los, L, R = rays(case, ctx)
    N = R["powers"].shape[-1]
    perms = {}
    B = los.shape[0]
    for n in ("aoa", "aod"):
        x = np.degrees(R[n])[:, 0, 0].reshape(-1, 20)
        c = np.repeat(cluster_spread(case, los, n)[:, 0, 0], N)
        if np.min(c) < .5:
            continue
        perms[n] = np.argsort(np.argsort(azimuth_centre(x, c)[2], 1), 1)
    for n in ("zoa", "zod"):
        c = np.repeat(cluster_spread(case, los, n)[:, 0, 0], N)
        x = np.degrees(R[n])[:, 0, 0].reshape(-1, 20)
        if np.min(c) < .5:
            continue
        ok = (x.min(1) > 2.0) & (x.max(1) < 178.)
        cen, res = zenith_centre(x, c)
        ok &= (cen - 2.2 * c > 0) & (cen + 2.2 * c < 180) & (res < 6e-3)
        p = np.argsort(np.argsort(x, 1), 1).astype(float)
        p[~ok] = np.nan
        perms[n] = p
    ctx.nt(len(perms) > 1)
    for n, p in perms.items():
        ctx.label("coupling " + n)
        p = p[np.isfinite(p).all(1)].astype(int)
        if len(p) < 100:
            continue
        cnt = np.zeros((20, 20)); np.add.at(cnt, (np.broadcast_to(np.arange(20), p.shape), p), 1)
        X = ((cnt - len(p) / 20.) ** 2).sum() / (len(p) / 20.) * 19 / 20 * 20 / 19
        ctx.check(stat.chi2_upper_ok(X * 19 / 20., 361, 1e-9), f"{n}: ray order inside clusters is not uniformly random (chi2 {X:.0f})")
        q = perms[n]; q = q[np.isfinite(q).all(1)].astype(int)
        fixed = (q[1:] == q[:-1]).sum()
        M = len(q) - 1
        ctx.check(abs(fixed - M) < 7 * np.sqrt(M) + 10, f"{n}: order of rays repeats between clusters ({fixed} common positions of {M} expected)")
    names = list(perms)
    for i, n in enumerate(names):
        for m_ in names[:i]:
            ok = np.isfinite(perms[n]).all(1) & np.isfinite(perms[m_]).all(1)
            M = ok.sum()
            if M < 100: continue
            f = (perms[n][ok] == perms[m_][ok]).sum()
            ctx.check(abs(f - M) < 7 * np.sqrt(M) + 10, f"{n} and {m_} of the rays are coupled identically ({f} common positions of {M} expected)")
    if R["aoa"].shape[2] > 1:
        pass


def fn_xpr(case, ctx):
    sc, a, los, L, R = rays(case, ctx)
    ctx.nt(los.any() and not los.all())
    x = 10 * np.log10(R["xpr"])
    zs = []
    for state in (True, False):
        w = los == state
        if not w.any():
            continue
        mu, sd = tables.value(case, state, "muXPR"), tables.value(case, state, "sigmaXPR")
        z = (x[w] - mu) / sd
        zs.append(z)
        what = f"({case['env']}, {case['dir']}, {case['el']} deg, {'LoS' if state else 'NLoS'})"
        ctx.check(stat.mean_ok(z, 0, 1, 1e-4), f"cross-polarization ratio: mean {x[w].mean():.2f} dB, table {mu} {what}")
        ctx.check(stat.std_ok(z, 0, 1), f"cross-polarization ratio: deviation {x[w].std():.2f} dB, table {sd} {what}")
        ctx.check(stat.ks_ok(z, ss.norm.cdf), f"cross-polarization ratio not log-normal {what}")
    z = np.zeros_like(x)
    for state in (True, False):
        w = los == state
        z[w] = (x[w] - tables.value(case, state, "muXPR")) / tables.value(case, state, "sigmaXPR")
    for ax, w in ((-1, "rays"), (-2, "clusters"), (2, "terminals"), (1, "stations"), (0, "batch examples")):
        if z.shape[ax] > 1:
            u = np.take(z, range(1, z.shape[ax]), ax).ravel(); v = np.take(z, range(z.shape[ax] - 1), ax).ravel()
            if u.size > 200:
                c = np.mean(u * v)
                ctx.check(abs(c) < 7. / np.sqrt(u.size), f"cross-polarization ratios of different {w} correlated ({c:.3f})")


SUBS = [Sub("structure", lambda: s(30, 5), fn_struct, quick=300, thorough=5000, shards=6, weight=8),
        Sub("law", s_law, fn_law, quick=140, thorough=3000, shards=7, weight=14),
        Sub("coupling", lambda: s(1, 1).map(lambda c: dict(c, B=800)), fn_couple, quick=50, thorough=600, shards=3, weight=10),
        Sub("xpr", lambda: s(60, 5), fn_xpr, quick=120, thorough=2000, shards=3, weight=6)]
