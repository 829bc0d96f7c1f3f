import numpy as np
from hypothesis import strategies as st
from harness import gen, ref, sut
from harness.core import Sub

RULE = ("A case is a panel-array configuration (rows/columns per panel 1-5, panels 1-3 x 1-3, spacings default or given, "
        "polarization). Non-trivial: more than one panel or element, or dual polarization.")
ASSUMPTIONS = ["element numbering: panels column-first, within a panel first all elements of polarization 1 column by column from the top, then polarization 2 (as drawn by show())"]


def fn(case, ctx):
    d = case["a"]
    arr = gen.mk_array(d, case["fc"])
    lam = gen.C0 / case["fc"]
    n = gen.num_ant(d)
    ctx.nt(n > 1)
    ctx.label("dual" if d["pol"] == "dual" else "single", "panels>1" if d["pr"] * d["pc"] > 1 else "one panel",
              "spacing given" if "ev" in d else "spacing default")
    p = 2 if d["pol"] == "dual" else 1
    ctx.check(int(arr.num_ant) == n, f"num_ant {int(arr.num_ant)}, expected {n}")
    ctx.check(int(arr.num_panels) == d["pr"] * d["pc"], "num_panels")
    ctx.check(int(arr.num_panels_ant) == d["r"] * d["c"] * p, "antennas per panel")
    for a, b in (("num_rows", "pr"), ("num_cols", "pc"), ("num_rows_per_panel", "r"), ("num_cols_per_panel", "c")):
        ctx.check(int(getattr(arr, a)) == d[b], f"{a} {int(getattr(arr, a))} expected {d[b]}")
    ctx.check(arr.polarization == d["pol"] and arr.polarization_type == d["pt"], "polarization labels")
    ev, eh = d.get("ev") or .5, d.get("eh") or .5
    pv = d.get("pv") or (d["r"] - 1) * ev + .5
    ph = d.get("ph") or (d["c"] - 1) * eh + .5
    for nme, w in (("element_vertical_spacing", ev), ("element_horizontal_spacing", eh), ("panel_vertical_spacing", pv), ("panel_horizontal_spacing", ph)):
        ctx.check(abs(float(getattr(arr, nme)) - w) < 1e-5 * w, f"{nme} {float(getattr(arr, nme))} expected {w}")
    pos = np.asarray(arr.ant_pos, float)
    want, pol = ref.elem_positions(d, lam)
    ctx.close(pos / lam, want / lam, "element positions [wavelengths]", 1e-5, 1e-5)
    ctx.close(pos.mean(0) / lam, np.zeros(3), "array centroid [wavelengths]", 0, 1e-4)
    i1 = np.asarray(arr.ant_ind_pol1).astype(int)
    ctx.close(np.asarray(arr.ant_pos_pol1, float), pos[i1], "positions of polarization 1", 1e-6, 1e-9)
    if p == 2:
        i2 = np.asarray(arr.ant_ind_pol2).astype(int)
        allidx = np.sort(np.concatenate([i1, i2]))
        ctx.check(len(i1) == len(i2) and np.array_equal(allidx, np.arange(n)), f"polarization indices do not partition the antennas: {i1} {i2}")
        ctx.close(np.asarray(arr.ant_pos_pol2, float), pos[i2], "positions of polarization 2", 1e-6, 1e-9)
        ctx.close(pos[i1], pos[i2], "dual-polarized elements not co-located", 1e-6, 1e-9)
        ctx.check(np.array_equal(np.sort(i1), np.flatnonzero(pol == 0)), "polarization 1 indices")
    else:
        ctx.check(np.array_equal(np.sort(i1), np.arange(n)), f"polarization indices {i1}")
        try:
            arr.ant_pol2
            ctx.fail("second polarization element offered by a single-polarized array")
        except AssertionError:
            pass
    # slants: read off the field at boresight
    import tensorflow as tf
    for k, s in enumerate(ref.SLANTS[d["pt"]]):
        el = arr.ant_pol1 if k == 0 else arr.ant_pol2
        f = [float(x[0]) for x in el.field(tf.constant([np.pi / 2], tf.float32), tf.constant([0.], tf.float32))]
        ctx.close(np.array(f) / np.hypot(*f), np.array([np.cos(s), np.sin(s)]), f"slant of polarization {k + 1} of a {d['pt']} array", 1e-4, 1e-4)


def s():
    @st.composite
    def go(draw):
        d = draw(gen.array(max_ant=200, max_panel=3))
        if draw(st.booleans()):
            d["r"] = draw(st.integers(1, 6)); d["c"] = draw(st.integers(1, 6))
            if "pv" in d:
                d["pv"] = (d["r"] - 1) * d["ev"] + draw(gen.fl(0.1, 4.)); d["ph"] = (d["c"] - 1) * d["eh"] + draw(gen.fl(0.1, 4.))
        # spacings may be given one by one
        for k in draw(st.sets(st.sampled_from(["ev", "eh", "pv", "ph"]), max_size=2)):
            if k in ("pv", "ph"): d.pop(k, None)
        return dict(a=d, fc=draw(gen.carrier()))
    return go()


def fn_conv(case, ctx):
    """Antenna / AntennaArray convenience classes equal the corresponding PanelArray"""
    m = sut.load()
    pol, pt = gen.POLS[case["pp"]]
    fc = case["fc"]
    if case["kind"] == "antenna":
        a = m.Antenna(pol, pt, case["pat"], fc)
        d = dict(gen.OMNI, pol=pol, pt=pt, pat=case["pat"])
    else:
        kw = {k: case[k] for k in ("vertical_spacing", "horizontal_spacing") if case.get(k)}
        a = m.AntennaArray(case["r"], case["c"], pol, pt, case["pat"], fc, **kw)
        d = dict(gen.OMNI, pol=pol, pt=pt, pat=case["pat"], r=case["r"], c=case["c"], ev=case.get("vertical_spacing"), eh=case.get("horizontal_spacing"))
    ctx.nt(gen.num_ant(d) > 1)
    ctx.check(isinstance(a, m.PanelArray), "not a PanelArray")
    ctx.check(int(a.num_ant) == gen.num_ant(d), f"num_ant {int(a.num_ant)} expected {gen.num_ant(d)}")
    lam = gen.C0 / fc
    ctx.close(np.asarray(a.ant_pos, float) / lam, ref.elem_positions(d, lam)[0] / lam, "positions", 1e-5, 1e-5)


def s_conv():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["antenna", "array"]), pp=st.sampled_from([0, 1, 2, 3]), fc=gen.carrier(),
        pat=st.sampled_from(gen.PATTERNS), r=st.integers(1, 5), c=st.integers(1, 5),
        vertical_spacing=st.one_of(st.none(), gen.fl(.1, 3)), horizontal_spacing=st.one_of(st.none(), gen.fl(.1, 3))))


def fn_panel(case, ctx):
    m = sut.load()
    d = case
    p = m.AntennaPanel(d["r"], d["c"], d["pol"], d["ev"], d["eh"])
    dd = dict(gen.OMNI, r=d["r"], c=d["c"], pol=d["pol"], ev=d["ev"], eh=d["eh"])
    ctx.nt(d["r"] * d["c"] > 1)
    ctx.close(np.asarray(p.ant_pos, float), ref.elem_positions(dd, 1.0)[0], "panel element positions", 1e-5, 1e-5)
    ctx.check(int(p.num_rows) == d["r"] and int(p.num_cols) == d["c"], "panel rows/cols")
    ctx.check(abs(float(p.vertical_spacing) - d["ev"]) < 1e-5 and abs(float(p.horizontal_spacing) - d["eh"]) < 1e-5, "panel spacings")


def s_panel():
    return st.fixed_dictionaries(dict(r=st.integers(1, 8), c=st.integers(1, 8), pol=st.sampled_from(["single", "dual"]), ev=gen.fl(.05, 3), eh=gen.fl(.05, 3)))


SUBS = [Sub("array", s, fn, quick=600, thorough=10000, shards=2), Sub("convenience", s_conv, fn_conv, quick=200, thorough=3000),
        Sub("panel", s_panel, fn_panel, quick=150, thorough=3000, weight=.5)]
