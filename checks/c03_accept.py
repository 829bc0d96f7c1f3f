import numpy as np
from hypothesis import strategies as st
from harness import gen, sut
from harness.core import Sub

RULE = ("scenario: a case mixes direction string, carrier, elevation and array carriers drawn around every limit; "
        "arrays: constructor arguments drawn valid or with invalid members; topology: a subset of the six required pieces. "
        "Non-trivial: exactly one condition is broken, or a value within 1% of a limit.")
ASSUMPTIONS = ["carriers closer than 0.1% are not distinguished (single precision)"]


def ok_fc(f):
    return 1.9e9 <= f <= 4e9 or 19e9 <= f <= 40e9


def s_scn():
    @st.composite
    def go(draw):
        brk = draw(st.sampled_from(["", "fc", "el", "dir", "match", "arr", "any"]))
        inb = st.one_of(gen.carrier(), gen.fl(1.9e9, 1.95e9), gen.fl(3.9e9, 4e9), gen.fl(19e9, 19.5e9), gen.fl(39e9, 40e9))
        oob = st.one_of(gen.fl(1.8e9, 1.8999e9), gen.fl(4.0001e9, 4.2e9), gen.fl(18e9, 18.999e9), gen.fl(40.001e9, 42e9),
                        gen.fl(1e8, 1.8e9), gen.fl(4.2e9, 18e9), gen.fl(42e9, 1e11))
        ine = st.one_of(gen.elevation(), gen.fl(10., 10.5), gen.fl(89.5, 90.))
        oe = st.one_of(gen.fl(9., 9.9999), gen.fl(90.0001, 91.), gen.fl(-20., 9.), gen.fl(91., 200.))
        ms = [(.9, 1.), (1., .9), (1.001, 1.), (1., 1.001), (2., .5), (1.01, 1.01)]
        a = brk == "any"
        mu, mb = draw(st.sampled_from(ms if brk == "match" else [(1., 1.)] * 3 + ms[:2] if a else [(1., 1.)]))
        return dict(kind=draw(st.sampled_from(["Scenario", ""])), env=draw(st.sampled_from(gen.ENVS)),
                    dir=draw(st.sampled_from(["Uplink", "down", "", "sidelink", "DOWNLINK"] if brk == "dir" else list(gen.DIRS))),
                    fc=draw(oob if brk == "fc" else st.one_of(inb, oob) if a else inb),
                    el=draw(oe if brk == "el" else st.one_of(ine, oe) if a else ine), m_ut=mu, m_bs=mb,
                    arr=draw(st.sampled_from(["none_ut", "none_bs", "elem_ut"] if brk == "arr" else ["ok"])),
                    pl=draw(st.booleans()), sf=draw(st.booleans()))
    return go()


def fn_scn(case, ctx):
    m = sut.load()
    fc = case["fc"]
    conds = dict(dir=case["dir"] in ("uplink", "downlink"), fc=ok_fc(fc), el=10 <= case["el"] <= 90,
                 match=case["m_ut"] == 1. and case["m_bs"] == 1., arr=case["arr"] == "ok")
    if case["m_ut"] == case["m_bs"] != 1.: conds["match"] = False
    want = all(conds.values())
    lims = [abs(fc / l - 1) < .01 for l in (1.9e9, 4e9, 19e9, 40e9)] + [abs(case["el"] / l - 1) < .01 for l in (10, 90)]
    ctx.nt(sum(not v for v in conds.values()) == 1 or any(lims))
    ctx.label("accept" if want else "reject", *["broken " + k for k, v in conds.items() if not v and sum(not x for x in conds.values()) == 1])
    ut, bs = gen.mk_array(gen.OMNI, fc * case["m_ut"]), gen.mk_array(gen.OMNI, fc * case["m_bs"])
    if case["arr"] == "none_ut": ut = None
    if case["arr"] == "none_bs": bs = "array"
    if case["arr"] == "elem_ut": ut = m.AntennaElement("omni")
    try:
        s = getattr(m, case["env"] + case["kind"])(carrier_frequency=fc, ut_array=ut, bs_array=bs, direction=case["dir"],
                                                   elevation_angle=case["el"], enable_pathloss=case["pl"], enable_shadow_fading=case["sf"])
    except (AssertionError, ValueError, TypeError, AttributeError) as e:
        if isinstance(e, (TypeError, AttributeError)) and case["arr"] == "ok":
            raise
        ctx.check(not want, f"supported configuration rejected: {e}")
        return
    ctx.check(want, f"unsupported configuration accepted, broken: {[k for k, v in conds.items() if not v]}")
    sc = s if case["kind"] else s._scenario
    ctx.check(sc.direction == case["dir"], "direction not stored")
    ctx.check(abs(float(sc.carrier_frequency) / fc - 1) < 1e-6 and abs(float(sc.lambda_0) * fc / gen.C0 - 1) < 1e-6, "carrier/wavelength not stored")
    ctx.check(float(sc.elevation_angle) == case["el"], "elevation not stored")
    ctx.check(bool(sc.pathloss_enabled) == case["pl"] and bool(sc.shadow_fading_enabled) == case["sf"], "flags not stored")
    ctx.check(sc.ut_array is ut and sc.bs_array is bs, "arrays mixed up")


def s_arr():
    return st.fixed_dictionaries(dict(
        pol=st.sampled_from(["single", "dual", "single", "dual", "both", "V"]), pt=st.sampled_from(["V", "H", "VH", "cross", "X"]),
        pat=st.sampled_from(["omni", "38.901", "aperture", "dlp", "38901", "isotropic"]), r=st.integers(1, 4), c=st.integers(1, 4),
        ev=gen.fl(.1, 2), eh=gen.fl(.1, 2), fv=st.sampled_from([1.5, 1.01, 1.5, 1.01, 1., .99, 0.]), fh=st.sampled_from([1.5, 1.01, 1.5, 1.01, 1., .99, 0.])))


def fn_arr(case, ctx):
    m = sut.load()
    w, h = (case["c"] - 1) * case["eh"], (case["r"] - 1) * case["ev"]
    ph, pv = (w * case["fh"] if w else case["fh"]), (h * case["fv"] if h else case["fv"])
    conds = dict(pol=case["pol"] in ("single", "dual"),
                 pt=case["pt"] in {"single": ("V", "H"), "dual": ("VH", "cross")}.get(case["pol"], ("V", "H", "VH", "cross")),
                 pat=case["pat"] in gen.PATTERNS, width=ph > w, height=pv > h)
    want = all(conds.values())
    ctx.nt(want or sum(not v for v in conds.values()) == 1)
    ctx.label("accept" if want else "reject")
    try:
        m.PanelArray(case["r"], case["c"], case["pol"], case["pt"], case["pat"], 2e9, num_rows=2, num_cols=2,
                     panel_vertical_spacing=pv, panel_horizontal_spacing=ph, element_vertical_spacing=case["ev"], element_horizontal_spacing=case["eh"])
    except (AssertionError, ValueError) as e:
        ctx.check(not want, f"supported array rejected: {e}")
        return
    ctx.check(want, f"unsupported array accepted, broken: {[k for k, v in conds.items() if not v]}")


NEED = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state")


def s_top():
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), t=gen.topo(max_b=2, max_ut=2),
                                      kind=st.sampled_from(["scenario", "channel"]),
                                      drop=st.sampled_from([[]] + [[x] for x in NEED] * 2 + [[NEED[i], NEED[(i + 2) % 6]] for i in range(6)])))


def fn_top(case, ctx):
    import tensorflow as tf
    c = dict(env=case["env"], dir=case["dir"], fc=2e9, el=50.)
    o = (gen.mk_scenario if case["kind"] == "scenario" else gen.mk_channel)(c)
    a = gen.topo_arrays(case["t"], 6e5)
    ctx.nt(len(case["drop"]) == 1 or not case["drop"])
    ctx.label("complete" if not case["drop"] else "missing " + ",".join(sorted(case["drop"])) if len(case["drop"]) == 1 else "missing several")
    try:
        o.set_topology(**{k: tf.constant(v) for k, v in a.items() if k not in case["drop"]})
    except AssertionError as e:
        ctx.check(case["drop"], f"complete topology refused: {e}")
        return
    ctx.check(not case["drop"], f"first topology without {case['drop']} accepted")


SUBS = [Sub("scenario", s_scn, fn_scn, quick=700, thorough=12000, shards=3), Sub("array", s_arr, fn_arr, quick=500, thorough=8000),
        Sub("topology", s_top, fn_top, quick=150, thorough=2500, weight=4)]
