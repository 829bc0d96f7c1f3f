import numpy as np
from hypothesis import strategies as st
from harness import gen, ref, sut
from harness.core import Sub

RULE = ("A case is a pattern, slant (or array polarization type), carrier and 40-200 directions (seeded bulk plus "
        "special directions: poles, boresight, backlobe, main-lobe neighbourhood). Non-trivial: the pattern varies "
        "over the directions (not omni) or the slant is neither 0 nor 90 degrees.")
ASSUMPTIONS = ["zenith in [0,pi], azimuth in (-pi,pi] as documented", "pattern formulas of TR 38.901 T7.3-1, TR 38.811 6.4.1, R1-1802551"]


def directions(case):
    r = np.random.default_rng(case["s"])
    n = case["n"]
    th = np.arccos(r.uniform(-1, 1, n)); ph = r.uniform(-np.pi, np.pi, n)
    k = n // 3
    th[:k] = np.clip(np.pi / 2 + r.normal(0, 10 ** r.uniform(-3, -0.3, k)), 0, np.pi)
    ph[:k] = np.clip(r.normal(0, 10 ** r.uniform(-3, -0.3, k)), -np.pi, np.pi)
    sp = [(np.pi / 2, 0.), (0., 0.), (np.pi, 0.), (np.pi / 2, np.pi), (np.pi / 2, -np.pi + 1e-6), (np.pi / 2, np.pi / 2),
          (np.pi / 4, 0.), (np.pi / 2, 0.3), (0.3, 2.)]
    sp += [tuple(x) for x in case.get("extra", [])]
    th = np.concatenate([th, [a for a, _ in sp]]); ph = np.concatenate([ph, [b for _, b in sp]])
    return th.astype(np.float32), ph.astype(np.float32)


def check_elem(el, pat, slant, th, ph, ctx, tag):
    import tensorflow as tf
    ft, fp = [np.asarray(x, float) for x in el.field(tf.constant(th), tf.constant(ph))]
    t, p = th.astype(float), ph.astype(float)
    g, tol = ref.gain(pat, t, p), ref.gain_tol(pat, t, p)
    ctx.check(np.all(np.isfinite(ft)) and np.all(np.isfinite(fp)), lambda: f"{tag}: non-finite field at "
              f"{[(float(a), float(b)) for a, b, x in zip(th, ph, ft + fp) if not np.isfinite(x)][:3]}")
    u = ft ** 2 + fp ** 2
    i = int(np.argmax(np.abs(u - g) - tol))
    ctx.check(np.all(np.abs(u - g) <= tol), lambda: f"{tag}: power {u[i]} at theta={t[i]}, phi={p[i]}, pattern gain {g[i]} (tol {tol[i]})")
    a = np.sqrt(u)
    e = np.maximum(np.abs(ft - a * np.cos(slant)), np.abs(fp - a * np.sin(slant)))
    ctx.check(np.all(e <= 1e-5 + 1e-5 * a), lambda: f"{tag}: slant {slant} split wrong: F_theta={ft[np.argmax(e)]}, F_phi={fp[np.argmax(e)]}, |F|={a[np.argmax(e)]}")
    b = [np.asarray(x, float) for x in el.field(tf.constant([np.float32(np.pi / 2)]), tf.constant([np.float32(0.)]))]
    ub = float(b[0][0] ** 2 + b[1][0] ** 2)
    ctx.check(np.all(u <= ub * (1 + 1e-5)), lambda: f"{tag}: power {u.max()} exceeds boresight power {ub}")
    peak = {"omni": 1.0, "38.901": 10 ** 0.8, "aperture": 1.0, "dlp": 1.0}[pat]
    ctx.check(abs(ub - peak) < 1e-4 * peak, f"{tag}: boresight gain {ub}, specified {peak}")


def fn_elem(case, ctx):
    m = sut.load()
    th, ph = directions(case)
    el = m.AntennaElement(case["pat"], case["slant"])
    ctx.nt(case["pat"] != "omni" or abs(np.sin(2 * case["slant"])) > 1e-3)
    ctx.label("pattern " + case["pat"])
    check_elem(el, case["pat"], case["slant"], th, ph, ctx, f"element {case['pat']}")
    # shape generality: a 2-D grid gives the same values
    import tensorflow as tf
    n = len(th) // 2 * 2
    f1 = el.field(tf.constant(th[:n]), tf.constant(ph[:n]))
    f2 = el.field(tf.constant(th[:n].reshape(2, -1)), tf.constant(ph[:n].reshape(2, -1)))
    for a, b in zip(f1, f2):
        ctx.close(np.reshape(b, [-1]), np.asarray(a), "field evaluated on a grid", 1e-6, 1e-7)


def fn_array(case, ctx):
    th, ph = directions(case)
    pol, pt = gen.POLS[case["pp"]]
    d = dict(gen.OMNI, pol=pol, pt=pt, pat=case["pat"])
    arr = gen.mk_array(d, case["fc"])
    sl = ref.SLANTS[pt]
    ctx.nt(True)
    ctx.label("type " + pt)
    check_elem(arr.ant_pol1, case["pat"], sl[0], th, ph, ctx, f"{pt} array, first polarization")
    if pol == "dual":
        check_elem(arr.ant_pol2, case["pat"], sl[1], th, ph, ctx, f"{pt} array, second polarization")


def s_elem():
    return st.fixed_dictionaries(dict(
        pat=st.sampled_from(gen.PATTERNS), slant=st.one_of(gen.fl(-np.pi, np.pi), st.sampled_from([0., np.pi / 4, -np.pi / 4, np.pi / 2])),
        s=gen.seeds(), n=st.integers(30, 200),
        extra=st.lists(st.tuples(gen.fl(0, np.pi), gen.fl(-np.pi, np.pi)), max_size=4).map(lambda l: [list(x) for x in l])))


def s_arr():
    return st.fixed_dictionaries(dict(pat=st.sampled_from(gen.PATTERNS), pp=st.sampled_from([0, 1, 2, 3]), fc=gen.carrier(),
                                      s=gen.seeds(), n=st.integers(30, 60)))


SUBS = [Sub("element", s_elem, fn_elem, quick=400, thorough=8000, shards=2),
        Sub("array_pol", s_arr, fn_array, quick=250, thorough=4000)]
