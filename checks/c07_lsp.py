import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss
from harness import gen, stat, sut, tables
from harness.core import Sub

RULE = ("A case is an environment, direction, carrier, elevation, terminal layout (1-5 terminals, 1 m-100 km apart) and an indoor/LoS "
        "pattern repeated over a large batch of independent examples; 2000-6000 parameter sets are drawn and compared with the golden "
        "tables. Non-trivial: several terminals within ten correlation distances, or a mix of states, or a capped spread.")
ASSUMPTIONS = ["cross-correlations are judged on isolated terminals (the spatial filter legitimately dilutes them otherwise)",
               "Kolmogorov-Smirnov and Fisher-z bounds at false-alarm probability < 1e-8"]
NAMES = ["DS", "ASD", "ASA", "SF", "K", "ZSA", "ZSD"]
FIELD = ["ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd"]
CAP = {"ASD": 104., "ASA": 104., "ZSA": 52., "ZSD": 52.}


def pair_name(a, b):
    for n in (f"corr{a}vs{b}", f"corr{b}vs{a}"):
        if n in tables.NAMES:
            return n


def make(case, B, xy, ins, los, S=1):
    import tensorflow as tf
    m = sut.load()
    sut.seed(case["rs"])
    sc = gen.mk_scenario(case)
    N = len(xy)
    ut = np.zeros([B, N, 3], np.float32); ut[..., :2] = xy; ut[..., 2] = 1.5
    bs = np.zeros([B, S, 3], np.float32); bs[..., 2] = case["h"]; bs[..., 0] = 1e4 * np.arange(S)
    z = np.zeros([B, N, 3], np.float32)
    sc.set_topology(tf.constant(ut), tf.constant(bs), tf.constant(z), tf.constant(np.zeros_like(bs)), tf.constant(z),
                    tf.constant(np.broadcast_to(ins, [B, N])), los=tf.constant(los))
    g = m.LSPGenerator(sc)
    g.topology_updated_callback()
    return sc, g


def get(lsp, s=0):
    return np.stack([np.asarray(getattr(lsp, f), float)[:, s] for f in FIELD], -1)     # [B, N, 7]


def common(x, ctx):
    ctx.check(np.all(np.isfinite(x)), "non-finite large-scale parameter")
    ctx.check(np.all(x >= 0), "negative large-scale parameter")
    for k, n in enumerate(NAMES):
        if n in CAP:
            ctx.check(x[..., k].max() <= CAP[n] * (1 + 1e-6), f"{n} {x[..., k].max()} exceeds {CAP[n]} degrees")
        else:
            ctx.check(np.all(x[..., k] > 0), f"{n} not positive")


def standardize(x, case, los):
    """z scores per table; None where the table is degenerate; censored values are nan"""
    z = {}
    for k, n in enumerate(NAMES):
        d = 10. if n in ("SF", "K") else 1.
        mu = 0. if n == "SF" else tables.value(case, los, "mu" + n) / d
        sd = tables.value(case, los, "sigma" + n) / d
        v = x[..., k]
        if np.isinf(mu):
            z[n] = ("zero", v)
        elif sd == 0:
            z[n] = ("const", v / min(10 ** mu, CAP.get(n, np.inf)))
        else:
            with np.errstate(divide="ignore"):
                q = (np.log10(np.maximum(v, 1e-300)) - mu) / sd
            lim = (np.log10(CAP[n]) - mu) / sd - 1e-4 if n in CAP else np.inf
            z[n] = ("n", q, lim)
    return z


def ks_censored(q, lim):
    q = np.sort(q.ravel())
    n = q.size
    f = ss.norm.cdf(q)
    m = q < lim
    d = 0.
    if m.any():
        i = np.arange(n)
        d = max(np.max(((i + 1) / n - f)[m]), np.max((f - i / n)[m]))
    d = max(d, abs(np.mean(q >= lim) - ss.norm.sf(lim)) if np.isfinite(lim) else 0.)
    return d, np.sqrt(np.log(2 / stat.P) / (2 * n))


def elev_notie():
    return gen.elevation().map(lambda e: e if len(tables.angle(e)) == 1 else e + 0.5)


def s_marg():
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=elev_notie(), h=gen.height(),
                                      los=st.booleans(), indoor=st.sampled_from([False, False, True]), N=st.sampled_from([1, 2]), S=st.sampled_from([1, 2, 3]), rs=gen.seeds()))


def fn_marg(case, ctx):
    B = 6000
    N = case["N"]
    xy = np.array([[1e6 * i, 0.] for i in range(N)])
    ins = np.full(N, case["indoor"])
    los = case["los"] and not case["indoor"]
    S = case.get("S", 1)
    sc, g = make(case, B, xy, ins, case["los"], S)
    lsp = g()
    x = get(lsp)
    common(x, ctx)
    z = standardize(x, case, los)
    other = [standardize(get(lsp, i), case, los) for i in range(1, S)]
    ok = []
    for n in NAMES:
        t = z[n]
        if t[0] == "zero":
            ctx.check(np.all(t[1] < 1e-30), f"{n}: {t[1].max()} although the table says no spread at all")
        elif t[0] == "const":
            ctx.check(np.all(np.abs(t[1] - 1) < 1e-3), f"{n}: not the constant of the table")
        else:
            d, b = ks_censored(t[1], t[2])
            q = t[1]
            ctx.check(d <= b, f"{n} ({case['env']}, {case['dir']}, {case['el']} deg, LoS={los}): distribution differs from the table "
                      f"(KS {d:.3f} > {b:.3f}; z mean {np.mean(q):.3f} std {np.std(q):.3f})")
            if ss.norm.sf(t[2]) < 1e-3:
                ok.append(n)
                ctx.check(stat.mean_ok(q, 0, 1, .01), f"{n}: mean of the log value off by {np.mean(q):.4f} deviations")
                ctx.check(stat.std_ok(q[:, 0] / 1.0, 0, 1) or ss.norm.sf(t[2]) > 1e-6, f"{n}: deviation of the log value {np.std(q):.4f} times the table's")
            else:
                ctx.label("capped " + n); ctx.nt()
    ctx.nt(N > 1 or S > 1 or case["indoor"])
    ctx.label("%d stations" % S)
    # cross-correlations of isolated terminals
    for i, a in enumerate(NAMES):
        for b_ in NAMES[i + 1:]:
            if a in ok and b_ in ok:
                r = tables.value(case, los, pair_name(a, b_))
                e = np.corrcoef(z[a][1].ravel(), z[b_][1].ravel())[0, 1]
                lim = stat.corr_bound(B * N)
                ctx.check(abs(np.arctanh(np.clip(e, -.99999, .99999)) - np.arctanh(np.clip(r, -.9999, .9999))) <= lim,
                          f"correlation {a} vs {b_}: {e:.3f}, table {r} ({case['env']}, {case['dir']}, {case['el']} deg, LoS={los})")
    # independence: consecutive batch examples, distant terminals, successive draws
    y = standardize(get(g()), case, los)
    for n in ok:
        q = z[n][1]
        for u, v, w in ((q[:-1, 0], q[1:, 0], "batch examples"), (q[:, 0], y[n][1][:, 0], "successive draws")) + \
                (((q[:, 0], q[:, 1], "terminals 1000 km apart"),) if N > 1 else ()):
            e = np.corrcoef(u, v)[0, 1]
            ctx.check(abs(e) <= stat.corr_bound(B), f"{n} correlated across {w}: {e:.3f}")
        for i, o in enumerate(other):
            v = o[n][1]
            ctx.check(stat.mean_ok(v, 0, 1, .01) and stat.std_ok(v[:, 0], 0, 1), f"{n} of station {i + 1}: log value off by {np.mean(v):.3f} deviations, deviation {np.std(v):.3f} times the table's")
            for u, w in ((q, 0), *((other[k][n][1], k + 1) for k in range(i))):
                e = np.corrcoef(u[:, 0], v[:, 0])[0, 1]
                ctx.check(abs(e) <= stat.corr_bound(B), f"{n} correlated across stations {w} and {i + 1}: {e:.3f}")


def s_spat():
    @st.composite
    def go(draw):
        N = draw(st.integers(2, 5))
        scale = draw(st.sampled_from([3., 10., 30., 60., 200.]))
        floors = draw(st.sampled_from([0, 0, 0, 1]))  # the last two terminals above each other
        return dict(floors=floors, env=draw(st.sampled_from(gen.ENVS)), dir=draw(st.sampled_from(gen.DIRS)), fc=draw(gen.carrier()), el=draw(elev_notie()),
                    h=draw(gen.height()), los=draw(st.booleans()), rs=draw(gen.seeds()),
                    xy=[[round(draw(gen.fl(-scale, scale)), 2) + 1.0 * i, round(draw(gen.fl(-scale, scale)), 2)] for i in range(N)],
                    ins=[draw(st.sampled_from([False, False, True])) for _ in range(N)])
    return go()


def fn_spat(case, ctx):
    B = 3000
    xy = np.array(case["xy"]); ins = np.array(case["ins"])
    N = len(xy)
    if case.get("floors"):
        xy[-1] = xy[-2]
        ctx.label("co-located pair")
    D2 = np.linalg.norm(xy[:, None] - xy[None], axis=-1) + 1e9 * np.eye(N)
    sc, g = make(case, B, xy, ins, case["los"])
    x = get(g())
    common(x, ctx)
    ctx.nt(True)
    ctx.label("mixed states" if ins.any() and not ins.all() else "one state")
    Z = {}
    for n in NAMES:
        cols = []
        for u in range(N):
            t = standardize(x[:, u], case, case["los"] and not ins[u])[n]
            cols.append(t[1] if t[0] == "n" and ss.norm.sf(t[2]) < 1e-3 else None)
        Z[n] = cols
        for u in range(N):
            if cols[u] is None: continue
            ctx.check(stat.mean_ok(cols[u], 0, 1, .01), f"{n} of terminal {u}: mean off by {np.mean(cols[u]):.3f} deviations")
            ctx.check(stat.std_ok(cols[u], 0, 1), f"{n} of terminal {u}: deviation {np.std(cols[u]):.3f} times the table's")
            for v in range(u):
                if cols[v] is None: continue
                same = ins[u] == ins[v]
                D = tables.value(case, case["los"] and not ins[u], "corrDist" + n)
                want = np.exp(-D2[u, v] / D) if same else 0.
                e = np.corrcoef(cols[u], cols[v])[0, 1]
                lim = stat.corr_bound(B)
                if want > .3 and same: ctx.label("correlated pair")
                ctx.check(abs(e - want) <= 1e-3 or abs(np.arctanh(np.clip(e, -.99999, .99999)) - np.arctanh(min(want, .99999))) <= lim + 1e-3,
                          f"{n}: correlation {e:.3f} between terminals {D2[u, v]:.1f} m apart (same state: {same}), expected exp(-d/{D}) = {want:.3f}")
    # batch examples stay independent
    for n in NAMES:
        if Z[n][0] is not None:
            e = np.corrcoef(Z[n][0][:-1], Z[n][0][1:])[0, 1]
            ctx.check(abs(e) <= stat.corr_bound(B), f"{n} correlated across batch examples: {e:.3f}")
    # reported correlation matrix
    Dq = 37.5
    ctx.close(np.asarray(sc.spatial_correlation_matrix(Dq), float)[0], np.exp(-(D2 - 1e9 * np.eye(N)) / Dq), "spatial_correlation_matrix", 1e-4, 1e-5)


def s_any():
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=gen.elevation(), h=gen.height(),
                                      t=gen.topo(max_b=4, max_ut=8, stations=True, floors=True), rs=gen.seeds()))


def fn_any(case, ctx):
    """any topology: finite, capped, right shape; exact matrix square roots where exposed"""
    m = sut.load()
    sut.seed(case["rs"])
    sc = gen.mk_scenario(case)
    a = gen.set_topo(sc, case["t"], case["h"])
    g = m.LSPGenerator(sc)
    g.topology_updated_callback()
    los = np.asarray(sc.los)
    ctx.nt(los.any() and not los.all())
    if case["t"].get("floors") and case["t"]["N"] > 1:
        ctx.label("co-located terminals")
    for _ in range(2):
        l = g()
        for f in FIELD:
            ctx.check(np.asarray(getattr(l, f)).shape == los.shape, f"{f}: shape {np.asarray(getattr(l, f)).shape}, expected {los.shape}")
        common(get(l), ctx)
    L = getattr(g, "_cross_lsp_correlation_matrix_sqrt", None)
    if L is not None and len(tables.angle(case["el"])) == 1:
        L = np.asarray(L, float)
        want = np.zeros(los.shape + (7, 7))
        for i, p in enumerate(NAMES):
            want[..., i, i] = 1
            for j, q in enumerate(NAMES[:i]):
                want[..., i, j] = want[..., j, i] = tables.per_link(case, los, pair_name(p, q))
        ctx.close(L @ np.swapaxes(L, -1, -2), want, "cross-correlation matrix from its square root", 1e-4, 1e-4)
    S = getattr(g, "_spatial_lsp_correlation_matrix_sqrt", None)
    if S is not None and len(tables.angle(case["el"])) == 1:
        S = np.asarray(S, float)
        xy = a["ut_loc"][..., :2].astype(float)
        d = np.linalg.norm(xy[:, :, None] - xy[:, None], axis=-1)[:, None]
        ins = a["in_state"][:, None]
        state = np.where(ins, 2, los.astype(int))
        same = state[..., :, None] == state[..., None, :]
        for k, n in enumerate(NAMES):
            D = tables.per_link(case, los, "corrDist" + n)
            want = np.where(same, np.exp(-d / D[..., :, None]), 0.)
            ctx.close((S @ np.swapaxes(S, -1, -2))[:, :, k], want, f"spatial correlation of {n} from its square root", 1e-3, 1e-3)


SUBS = [Sub("marginals", s_marg, fn_marg, quick=90, thorough=1500, shards=6, weight=12),
        Sub("spatial", s_spat, fn_spat, quick=45, thorough=800, shards=4, weight=12),
        Sub("any_topology", s_any, fn_any, quick=160, thorough=3000, shards=4, weight=5)]
