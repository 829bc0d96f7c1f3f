import numpy as np
from hypothesis import strategies as st
from harness import gen, ref, stat, sut
from harness.core import Sub

RULE = ("generate: random sizes, scenario and any subset of overridden parameters (height, elevation, inter-site distance, height and speed limits); every terminal is judged. "
        "drop: the sector and cell drops with cell offsets, 200-400 terminals per example, position law by Kolmogorov-Smirnov. relocate, defaults: helpers against their "
        "definition. usable: generated topologies are set on a channel and called. Non-trivial: at least one override and several terminals, or sampled.")
ASSUMPTIONS = ["the sector is the square of side isd around a point whose flat distance from the station gives the requested elevation",
               "all terminals are outdoors: the code documents indoor drops as not supported",
               "terminals point at the requested elevation towards the station's axis, the station straight down (code comments; the inherited docstring says random)"]
SCN = {"dur": ("DenseUrban", 200.), "urb": ("Urban", 500.), "sur": ("SubUrban", 5000.)}


def over():
    return st.fixed_dictionaries({}, optional=dict(
        bs_height=st.one_of(gen.fl(6e5, 2e6), st.sampled_from([6e5, 3.5786e7, 2e4])), elevation_angle=gen.elevation(), isd=st.one_of(gen.fl(10., 2e4), st.sampled_from([0., 1e5])),
        uth=st.tuples(gen.fl(0., 30.), gen.fl(0., 100.)), utv=st.tuples(gen.fl(0., 50.), gen.fl(0., 300.)), indoor_probability=st.sampled_from([0., .5])))


def kwargs(o):
    k = {n: v for n, v in o.items() if n not in ("uth", "utv")}
    if "uth" in o:
        k["min_ut_height"], k["max_ut_height"] = o["uth"][0], o["uth"][0] + o["uth"][1]
    if "utv" in o:
        k["min_ut_velocity"], k["max_ut_velocity"] = o["utv"][0], o["utv"][0] + o["utv"][1]
    return k


def ring(h, el, isd):
    """allowed horizontal distances from the station's foot point, single-precision slack included"""
    D = h / np.tan(np.radians(el))
    D2 = D ** 2 + np.array([-1, 1]) * 6e-7 * h ** 2                         # sine and difference of squares in single precision
    lo, hi = np.sqrt(np.maximum(D2, 0))
    return max(lo - isd / np.sqrt(2), 0) * (1 - 1e-5) - 1e-2, (hi + isd / np.sqrt(2)) * (1 + 1e-5) + 1e-2


def s_gen():
    return st.fixed_dictionaries(dict(scn=st.sampled_from(sorted(SCN)), B=st.integers(1, 6), N=st.integers(1, 8), o=over(), rs=gen.seeds(), tens=st.booleans()))


def fn_gen(case, ctx):
    import tensorflow as tf
    u = sut.utils()
    sut.seed(case["rs"])
    k = kwargs(case["o"])
    arg = {n: tf.constant(v, tf.float32) if case["tens"] else v for n, v in k.items()}
    B, N = case["B"], case["N"]
    out = u.gen_single_sector_topology(B, N, case["scn"], **arg)
    ctx.check(len(out) == 6, "six tensors expected")
    ut, bs, uo, bo, v, ins = [np.asarray(x) for x in out]
    ctx.nt(bool(k) and N * B > 1)
    ctx.label(case["scn"], "overrides %d" % len(k))
    for nm, x, sh in (("ut_loc", ut, (B, N, 3)), ("bs_loc", bs, (B, 1, 3)), ("ut_orientations", uo, (B, N, 3)), ("bs_orientations", bo, (B, 1, 3)), ("ut_velocities", v, (B, N, 3)), ("in_state", ins, (B, N))):
        ctx.check(x.shape == sh, f"{nm} shape {x.shape}, expected {sh}")
        ctx.check(x.dtype == (bool if nm == "in_state" else np.float32), f"{nm} type {x.dtype}")
        ctx.check(np.all(np.isfinite(x)), f"{nm} not finite")
    h, el, isd = k.get("bs_height", 6e5), k.get("elevation_angle", 80.), k.get("isd", SCN[case["scn"]][1])
    ut, bs, uo, bo, v = (x.astype(float) for x in (ut, bs, uo, bo, v))
    ctx.close(bs, np.broadcast_to([0, 0, h], bs.shape), "station position", 1e-6, 0)
    r = np.hypot(ut[..., 0], ut[..., 1])
    lo, hi = ring(h, el, isd)
    ctx.check(np.all((r >= lo) & (r <= hi)), lambda: f"terminal {r.max():.1f}/{r.min():.1f} m from the foot point, height {h}, elevation {el}, isd {isd} allow {lo:.1f}..{hi:.1f}")
    for ax in (0, 1):
        sp = np.ptp(ut[..., ax], axis=1)
        ctx.check(np.all(sp <= isd * (1 + 1e-5) + 4e-7 * r.max() + 1e-3), f"terminals of one example spread over {sp.max():.1f} m, isd {isd}")
    z0, z1 = k.get("min_ut_height", 1.5), k.get("max_ut_height", 1.5)
    ctx.check(np.all((ut[..., 2] >= z0 * (1 - 1e-6) - 1e-6) & (ut[..., 2] <= z1 * (1 + 1e-6) + 1e-6)), f"terminal heights {ut[..., 2].min()}..{ut[..., 2].max()}, limits {z0}..{z1}")
    v0, v1 = k.get("min_ut_velocity", 0.), k.get("max_ut_velocity", 0.)
    sp = np.linalg.norm(v, axis=-1)
    ctx.check(np.all((sp >= v0 * (1 - 1e-5) - 1e-5) & (sp <= v1 * (1 + 1e-5) + 1e-5)), f"speeds {sp.min()}..{sp.max()}, limits {v0}..{v1}")
    ctx.check(not ins.any(), "indoor terminal")
    # orientations: boresight is the rotated x axis
    bx = ref.rot(*np.moveaxis(bo, -1, 0))[..., 0]
    ctx.close(bx, np.broadcast_to([0, 0, -1.], bx.shape), "station boresight", 0, 1e-5)
    ux = ref.rot(*np.moveaxis(uo, -1, 0))[..., 0]
    ok = r > 1e-3
    e = np.radians(el)
    want = np.stack([-np.cos(e) * ut[..., 0] / np.where(ok, r, 1), -np.cos(e) * ut[..., 1] / np.where(ok, r, 1), np.sin(e) + 0 * r], -1)
    ctx.check(np.all(np.abs(ux - want)[ok] < 2e-5), lambda: f"terminal boresight {ux[ok][np.argmax(np.abs(ux - want)[ok].max(-1))]} does not point at the station ({want[ok][np.argmax(np.abs(ux - want)[ok].max(-1))]}); "
              f"location {ut[ok][np.argmax(np.abs(ux - want)[ok].max(-1))]}")


def s_drop():
    return st.fixed_dictionaries(dict(area=st.sampled_from(["sector", "cell"]), B=st.integers(1, 4), N=st.sampled_from([200, 400]), h=gen.fl(6e5, 1.5e6), el=gen.fl(10., 85.), isd=gen.fl(100., 5000.),
                                      cell=st.one_of(st.just([0., 0.]), st.tuples(gen.fl(-1e4, 1e4), gen.fl(-1e4, 1e4)).map(list)), uth=st.tuples(gen.fl(0., 30.), gen.fl(0., 100.)),
                                      utv=st.tuples(gen.fl(0., 50.), gen.fl(0., 300.)), rs=gen.seeds()))


def fn_drop(case, ctx):
    import tensorflow as tf
    u = sut.utils()
    sut.seed(case["rs"])
    c, h, el, isd = np.array(case["cell"]), case["h"], case["el"], case["isd"]
    (z0, dz), (v0, dv) = case["uth"], case["utv"]
    ut, uo, v, ins = [np.asarray(x) for x in u.generate_uts_topology(case["B"], case["N"], case["area"], tf.constant(c, tf.float32), h, el, isd, z0, z0 + dz, 0., v0, v0 + dv)]
    ctx.nt()
    ctx.label(case["area"])
    xy = ut[..., :2].astype(float) - c
    r = np.hypot(xy[..., 0], xy[..., 1])
    lo, hi = ring(h, el, isd)
    ctx.check(np.all((r >= lo - .1) & (r <= hi + .1)), f"terminal {r.min():.1f}..{r.max():.1f} m from the cell centre, allowed {lo:.1f}..{hi:.1f}")
    un = lambda x, a, b: stat.ks_ok(x, lambda q: np.clip((q - a) / (b - a), 0, 1)) if b - a > .1 else True
    ctx.check(un(ut[..., 2], z0, z0 + dz), "terminal heights not uniform within the limits")
    ctx.check(un(np.linalg.norm(v, axis=-1), v0, v0 + dv), "speeds not uniform within the limits")
    if v0 > .01:
        ctx.check(un(np.arctan2(v[..., 1], v[..., 0]), -np.pi, np.pi), "directions of travel not uniform")
    D = h / np.tan(np.radians(el))
    for b in range(case["B"]):
        p = xy[b]
        if case["area"] == "cell":
            if D < 8 * isd:
                continue
            # fold the three sectors: directions differ by multiples of 120 degrees
            a = np.arctan2(p[:, 1], p[:, 0])
            k = np.round((a - a[0]) / (2 * np.pi / 3))
            n = [int(np.sum(k % 3 == i)) for i in range(3)]
            ctx.check(all(stat.binom_ok(x, len(a), 1 / 3) for x in n), f"terminals per sector {n}")
            R = np.stack([np.stack([np.cos(2 * np.pi / 3 * k), np.sin(2 * np.pi / 3 * k)], -1), np.stack([-np.sin(2 * np.pi / 3 * k), np.cos(2 * np.pi / 3 * k)], -1)], -2)
            p = np.einsum("nij,nj->ni", R, p)
            q = np.abs(p - p[0]).max(0)
            # terminals lie in one square of side isd (turned by a multiple of 120 degrees)
            ctx.check(np.all(np.linalg.norm(p - p.mean(0), axis=-1) <= isd * .75 + 3), f"folded sectors spread {np.linalg.norm(p - p.mean(0), axis=-1).max():.1f} m, isd {isd}")
            continue
        for ax in (0, 1):
            x = p[:, ax]
            ctx.check(np.ptp(x) <= isd * (1 + 1e-5) + .3, f"spread {np.ptp(x):.1f} m, isd {isd}")
            m = (x.max() + x.min()) / 2
            # the centre is estimated from the extremes: allow its error
            off = np.sort((x - m) / isd + .5)
            n = len(off)
            d = max(np.max(np.arange(1, n + 1) / n - off), np.max(off - np.arange(n) / n))
            ctx.check(d < np.sqrt(np.log(2 / 1e-9) / (2 * n)) + 20 / n, f"positions not uniform over the sector (axis {ax}, distance {d:.3f})")
        ra, rb = (np.argsort(np.argsort(p[:, i])) for i in (0, 1))
        ctx.check(abs(np.corrcoef(ra, rb)[0, 1]) * np.sqrt(len(p) - 1) < 7, "the two coordinates of the terminals are correlated")
        # terminals and examples are dropped anew: no example repeats another one's layout (coordinates are rounded to their size)
        if isd > 1e3 * 2e-7 * (np.abs(xy).max() + np.abs(c).max() + 1):
            for o in range(b):
                dd = np.abs((p - p[0]) - (xy[o] - xy[o][0])).max()
                ctx.check(dd > isd * 1e-2, f"examples {o} and {b} have the same layout of terminals (largest difference {dd:.3g} m, isd {isd})")


def s_rel():
    return st.fixed_dictionaries(dict(B=st.integers(1, 4), N=st.integers(1, 5), how=st.sampled_from(["scalar", "matrix", "row"]), cell=st.sampled_from(["one", "each"]), rs=gen.seeds(), sc=gen.fl(1., 1e5)))


def fn_rel(case, ctx):
    import tensorflow as tf
    u = sut.utils()
    r = np.random.default_rng(case["rs"])
    B, N = case["B"], case["N"]
    ut = r.uniform(-1, 1, (B, N, 2)).astype(np.float32) * np.float32(case["sc"])
    s_ = {"scalar": r.integers(0, 3), "matrix": r.integers(0, 3, (B, N)), "row": r.integers(0, 3, (1, N))}[case["how"]]
    c = (r.uniform(-1, 1, (2,) if case["cell"] == "one" else (B, N, 2)) * case["sc"]).astype(np.float32)
    g = np.asarray(u.relocate_uts(tf.constant(ut), tf.constant(s_, tf.int32), tf.constant(c)))
    a = np.broadcast_to(s_, (B, N)) * 2 * np.pi / 3
    w = np.stack([np.cos(a) * ut[..., 0] - np.sin(a) * ut[..., 1], np.sin(a) * ut[..., 0] + np.cos(a) * ut[..., 1]], -1) + c
    ctx.nt(N > 1)
    ctx.close(g, w, "relocated terminals", 1e-5, 1e-5 * case["sc"])


def fn_def(case, ctx):
    u = sut.utils()
    k = kwargs(case["o"])
    out = u.set_3gpp_scenario_parameters(case["scn"], **k)
    names = ("isd", "bs_height", "elevation_angle", "min_ut_height", "max_ut_height", "indoor_probability", "min_ut_velocity", "max_ut_velocity")
    dflt = dict(isd=SCN[case["scn"]][1], bs_height=6e5, elevation_angle=80., min_ut_height=1.5, max_ut_height=1.5, indoor_probability=0., min_ut_velocity=0., max_ut_velocity=0.)
    ctx.nt(0 < len(k) < 8)
    for n, g in zip(names, out):
        w = k.get(n, dflt[n])
        ctx.check(abs(float(g) - w) <= 1e-6 * abs(w), f"{n} is {float(g)}, expected {'the given ' if n in k else 'the default '}{w}")
    if case["bad"]:
        try:
            u.set_3gpp_scenario_parameters(case["bad"])
        except (AssertionError, ValueError, KeyError):
            return
        ctx.fail(f"unknown scenario {case['bad']!r} accepted")


def s_def():
    return st.fixed_dictionaries(dict(scn=st.sampled_from(sorted(SCN)), o=over(), bad=st.sampled_from(["", "uma", "rma", "URB", "urban", "x"])))


def s_use():
    return st.fixed_dictionaries(dict(scn=st.sampled_from(sorted(SCN)), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), B=st.integers(1, 3), N=st.integers(1, 4), o=over(), rs=gen.seeds()))


def fn_use(case, ctx):
    u = sut.utils()
    sut.seed(case["rs"])
    k = kwargs(case["o"])
    el = k.get("elevation_angle", 80.)
    ch = gen.mk_channel(dict(case, env=SCN[case["scn"]][0], el=el))
    topo = u.gen_single_sector_topology(case["B"], case["N"], case["scn"], **k)
    ch.set_topology(*topo)
    sc = ch._scenario
    ctx.nt(case["N"] > 1)
    for n, w in (("ut_orientations", topo[2]), ("bs_orientations", topo[3]), ("ut_velocities", topo[4]), ("indoor", topo[5])):
        ctx.check(np.array_equal(np.asarray(getattr(sc, n)), np.asarray(w)), f"{n} of the generated topology not in effect")
    if k.get("isd", 1.) > 0 or case["N"] == 1:
        a, tau = ch(1, 1e3)
        ctx.check(np.all(np.isfinite(np.asarray(a).view(np.float32))) and np.all(np.isfinite(np.asarray(tau))), "response of a generated topology not finite")


def fn_inter(case, ctx):
    u = sut.utils()
    ctx.nt()
    try:
        out = u.gen_single_sector_topology_interferers(case["B"], case["N"], case["I"], case["scn"])
    except Exception as e:
        ctx.fail(f"gen_single_sector_topology_interferers raises {type(e).__name__}: {str(e)[:120]}", key="interferers-uncallable")
        return
    ctx.check([tuple(np.asarray(x).shape) for x in out] == [(case["B"], case["N"] + case["I"], 3), (case["B"], 1, 3)] + [(case["B"], case["N"] + case["I"], 3), (case["B"], 1, 3)]
              + [(case["B"], case["N"] + case["I"], 3), (case["B"], case["N"] + case["I"])], f"shapes {[x.shape for x in out]}")


SUBS = [Sub("generate", s_gen, fn_gen, quick=500, thorough=8000, shards=3, weight=2), Sub("drop", s_drop, fn_drop, quick=150, thorough=2500, shards=2, weight=2),
        Sub("relocate", s_rel, fn_rel, quick=150, thorough=2000, shards=1, weight=1), Sub("defaults", s_def, fn_def, quick=200, thorough=3000, shards=1, weight=1),
        Sub("usable", s_use, fn_use, quick=60, thorough=1000, shards=2, weight=4),
        Sub("interferers", None, fn_inter, fixed=[dict(B=2, N=3, I=2, scn=s) for s in sorted(SCN)])]
