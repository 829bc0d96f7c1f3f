"""Shared generators of JSON-able cases and builders of the corresponding objects."""
import math
import numpy as np
from hypothesis import strategies as st

from . import sut

ENVS = ("DenseUrban", "Urban", "SubUrban")
DIRS = ("uplink", "downlink")
PATTERNS = ("omni", "38.901", "aperture", "dlp")
POLS = (("single", "V"), ("single", "H"), ("dual", "VH"), ("dual", "cross"))
C0 = 299792458.0


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


def seeds():
    return st.integers(0, 2**31 - 2)


def carrier():
    return st.one_of(fl(1.9e9, 4e9), fl(19e9, 40e9), st.sampled_from([1.9e9, 2e9, 4e9, 19e9, 20e9, 30e9, 40e9]))


def elevation():
    return st.one_of(fl(10., 90.), st.integers(10, 90).map(float), st.sampled_from([10., 50., 90., 14.9, 15.1, 84.9, 85.1]))


def height():
    """station heights: HAPS (8-50 km), around the 600 km switch, LEO, GEO"""
    return st.one_of(fl(8e3, 50e3), fl(5.5e5, 6.5e5), fl(6e5, 2e6), st.sampled_from([6e5, 1.2e6, 3.5786e7, 2e4]))


def array(max_ant=8, patterns=PATTERNS, max_panel=2, pols=POLS):
    @st.composite
    def go(draw):
        pol, pt = draw(st.sampled_from(pols))
        p = 2 if pol == "dual" else 1
        r = draw(st.integers(1, 3)); c = draw(st.integers(1, 3))
        pr = draw(st.integers(1, max_panel)); pc = draw(st.integers(1, max_panel))
        while r * c * pr * pc * p > max_ant:
            if pr * pc > 1 and pr >= pc: pr -= 1
            elif pc > 1: pc -= 1
            elif r >= c and r > 1: r -= 1
            elif c > 1: c -= 1
            else: break
        d = dict(r=r, c=c, pr=pr, pc=pc, pol=pol, pt=pt, pat=draw(st.sampled_from(patterns)))
        if draw(st.booleans()):
            d["ev"] = draw(fl(0.1, 2.)); d["eh"] = draw(fl(0.1, 2.))
            if draw(st.booleans()):
                d["pv"] = (r - 1) * d["ev"] + draw(fl(0.1, 4.))
                d["ph"] = (c - 1) * d["eh"] + draw(fl(0.1, 4.))
        return d
    return go()


def siso(patterns=("omni",), pols=(("single", "V"),)):
    return st.fixed_dictionaries(dict(r=st.just(1), c=st.just(1), pr=st.just(1), pc=st.just(1),
                                      pat=st.sampled_from(patterns), pp=st.sampled_from(pols))).map(
        lambda d: {**{k: v for k, v in d.items() if k != "pp"}, "pol": d["pp"][0], "pt": d["pp"][1]})


OMNI = dict(r=1, c=1, pr=1, pc=1, pol="single", pt="V", pat="omni")


def mk_array(d, fc, precision=None):
    m = sut.load()
    return m.PanelArray(num_rows_per_panel=d["r"], num_cols_per_panel=d["c"], polarization=d["pol"],
                        polarization_type=d["pt"], antenna_pattern=d["pat"], carrier_frequency=fc,
                        num_rows=d["pr"], num_cols=d["pc"],
                        panel_vertical_spacing=d.get("pv"), panel_horizontal_spacing=d.get("ph"),
                        element_vertical_spacing=d.get("ev"), element_horizontal_spacing=d.get("eh"),
                        **({"precision": precision} if precision else {}))


def num_ant(d):
    return d["r"] * d["c"] * d["pr"] * d["pc"] * (2 if d["pol"] == "dual" else 1)


def config(arrays=None, elev=None, h=None):
    """environment, direction, carrier, elevation, station height, arrays"""
    a = arrays or siso()
    return st.fixed_dictionaries(dict(env=st.sampled_from(ENVS), dir=st.sampled_from(DIRS), fc=carrier(),
                                      el=elev or elevation(), h=h or height(), ut=a, bs=a))


def mk_channel(c, precision=None, **kw):
    m = sut.load()
    if precision:
        kw["precision"] = precision
    return getattr(m, c["env"])(carrier_frequency=c["fc"], ut_array=mk_array(c.get("ut", OMNI), c["fc"], precision),
                                bs_array=mk_array(c.get("bs", OMNI), c["fc"], precision),
                                direction=c["dir"], elevation_angle=c["el"], **kw)


def mk_scenario(c, precision=None, **kw):
    m = sut.load()
    if precision:
        kw["precision"] = precision
    return getattr(m, c["env"] + "Scenario")(carrier_frequency=c["fc"],
                                             ut_array=mk_array(c.get("ut", OMNI), c["fc"], precision),
                                             bs_array=mk_array(c.get("bs", OMNI), c["fc"], precision),
                                             direction=c["dir"], elevation_angle=c["el"], **kw)


def topo(max_b=3, max_ut=4, indoor=True, los=(None, True, False), vmax=100., spread=2e3, stations=False, floors=False):
    """compact description; bulk values from the drawn seed; stations: several stations and heights per example;
    floors: terminals above each other (same x and y)"""
    more = dict(nb=st.sampled_from([1, 1, 1, 2, 3]),
                hs=st.one_of(st.just([]), st.lists(height(), min_size=2, max_size=4))) if stations else {}
    if floors:
        more["floors"] = st.sampled_from([0, 0, 1, 2])  # none/some/all
    return st.fixed_dictionaries(dict(**more,
        B=st.integers(1, max_b), N=st.integers(1, max_ut), ts=seeds(),
        spread=fl(1., spread), off=fl(0., 3e5), vmax=st.sampled_from([0., 3., 30., vmax]),
        indoor=st.sampled_from(indoor if isinstance(indoor, tuple) else (0, 1, 1, 2) if indoor else (0,)),  # none/mixed/all
        orient=st.booleans(), los=st.sampled_from(los)))


def topo_arrays(t, h):
    """NumPy float32 arrays of a topology description"""
    r = np.random.default_rng(t["ts"])
    B, N = t["B"], t["N"]
    ut = np.zeros([B, N, 3])
    ut[..., :2] = r.uniform(-t["spread"], t["spread"], [B, N, 2])
    ut[..., 2] = r.uniform(1.0, 25., [B, N])
    S = t.get("nb", 1)
    bs = np.zeros([B, S, 3])
    bs[..., 0] = r.uniform(-1, 1, [B, S]) * t["off"]
    bs[..., 1] = r.uniform(-1, 1, [B, S]) * t["off"]
    bs[..., 2] = np.resize(t["hs"], [B, S]) if t.get("hs") else h
    uo = r.uniform(-np.pi, np.pi, [B, N, 3]) if t["orient"] else np.zeros([B, N, 3])
    bo = r.uniform(-np.pi, np.pi, [B, S, 3]) if t["orient"] else np.zeros([B, S, 3])
    v = r.uniform(-1, 1, [B, N, 3]) * t["vmax"]
    ins = {0: np.zeros([B, N], bool), 1: r.uniform(size=[B, N]) < 0.5, 2: np.ones([B, N], bool)}[t["indoor"]]
    if t.get("floors"):
        at = np.zeros([B, N], int) if t["floors"] == 2 else np.sort(r.integers(0, max(1, N // 2), [B, N]))
        ut[..., :2] = np.take_along_axis(ut[..., :2], at[..., None], 1)
    f = np.float32
    return dict(ut_loc=ut.astype(f), bs_loc=bs.astype(f), ut_orientations=uo.astype(f),
                bs_orientations=bo.astype(f), ut_velocities=v.astype(f), in_state=ins)


def set_topo(obj, t, h, dtype=None, **kw):
    """set a topology on a channel or scenario; returns the NumPy arrays"""
    import tensorflow as tf
    a = topo_arrays(t, h)
    args = {k: tf.constant(v, tf.bool if v.dtype == bool else (dtype or tf.float32)) for k, v in a.items()}
    if t["los"] is not None:
        args["los"] = tf.constant(t["los"])
    args.update(kw)
    obj.set_topology(**args)
    return a
