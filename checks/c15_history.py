import contextlib
import numpy as np
from hypothesis import strategies as st
from checks import c12_pathloss as c12
from harness import gen, ref, sut, tables
from harness.core import Sub

RULE = ("A case is a history of up to 9 operations on one channel or scenario: incomplete first topologies, complete ones (with new sizes), updates of any subset of "
        "locations, orientations, velocities, indoor states, LoS request, atmosphere and Doppler switch, and channel calls. A model holds the current value of every "
        "argument; after each operation the reported state, geometry, LoS states, losses and the large-scale parameters and topology used by calls are compared with it. "
        "Non-trivial: at least two accepted updates, one of them partial, or a call between updates.")
ASSUMPTIONS = ["the large-scale parameters and topology used by a call are observed at the public ray and coefficient generators",
               "shadow fading is switched off where the loss is compared with the formulas"]

ARGS = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state")


def op():
    upd = st.fixed_dictionaries(dict(op=st.just("set"), mask=st.one_of(st.sampled_from([1 << i for i in range(6)]), st.integers(0, 63)), s=gen.seeds(),
                                     los=st.sampled_from([None, None, None, True, False]), atm=c12.ATM, dop=st.sampled_from([None, None, True, False])))
    full = st.fixed_dictionaries(dict(op=st.just("full"), s=gen.seeds(), B=st.integers(1, 3), N=st.integers(1, 4), nb=st.integers(1, 2), los=st.sampled_from([None, None, True, False])))
    call = st.fixed_dictionaries(dict(op=st.just("call"), T=st.integers(1, 2), s=gen.seeds()))
    same = st.fixed_dictionaries(dict(op=st.just("same"), mask=st.one_of(st.sampled_from([1 << i for i in range(6)]), st.integers(1, 63)), s=gen.seeds(), los=st.just(None)))
    return st.one_of(upd, upd, call, call, full, same)


def s():
    bad = st.fixed_dictionaries(dict(op=st.just("bad"), mask=st.integers(0, 62), s=gen.seeds(), los=st.sampled_from([None, True, False])))
    first = st.fixed_dictionaries(dict(op=st.just("full"), s=gen.seeds(), B=st.integers(1, 3), N=st.integers(1, 4), nb=st.integers(1, 2), los=st.sampled_from([None, None, True, False])))
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=gen.elevation(), h=gen.height(), rs=gen.seeds(),
                                      kind=st.sampled_from(["channel", "channel", "scenario"]), agl=st.sampled_from([False, False, True]), sf=st.sampled_from([False, False, True]),
                                      pre=st.one_of(st.lists(bad, max_size=2), bad.flatmap(lambda b: bad.map(lambda c: [b, dict(c, mask=63 & ~b['mask'] or 32)] if b['mask'] else [c]))), first=first, ops=st.lists(op(), min_size=1, max_size=7)))


def values(case, o, size):
    t = dict(B=size[0], N=size[1], nb=size[2], ts=o["s"], spread=2e3, off=1e4, vmax=50., indoor=1, orient=True)
    h = [case["h"] * (1 if o["s"] % 3 else 1.5), case["h"]]
    return gen.topo_arrays(dict(t, hs=h), case["h"])


@contextlib.contextmanager
def observe():
    m = sut.load()
    R, C = m.RaysGenerator, m.ChannelCoefficientsGenerator
    r0, c0 = R.__call__, C.__call__
    log = []

    def rays(self, lsp, *a, **k):
        out = r0(self, lsp, *a, **k)
        log.append(dict({n: np.asarray(getattr(lsp, n)) for n in ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd")}, powers=np.asarray(out.powers), delays=np.asarray(out.delays)))
        return out

    def coef(self, n, fs, k, r, topology, *a, **kw):
        log[-1].update(velocities=np.asarray(topology.velocities), tx=np.asarray(topology.tx_orientations), rx=np.asarray(topology.rx_orientations), los=np.asarray(topology.los))
        return c0(self, n, fs, k, r, topology, *a, **kw)

    R.__call__, C.__call__ = rays, coef
    try:
        yield log
    finally:
        R.__call__, C.__call__ = r0, c0


def state(sc):
    names = ("los", "distance_2d", "distance_3d", "los_aod", "los_zod", "basic_pathloss", "gas_pathloss", "scintillation_pathloss", "ut_velocities", "ut_orientations", "bs_orientations", "indoor")
    return {n: np.array(np.asarray(getattr(sc, n))) for n in names}


def compare(ctx, case, sc, cur, atm, step):
    """the scenario reports exactly the current values"""
    B, N, S = cur["ut_loc"].shape[0], cur["ut_loc"].shape[1], cur["bs_loc"].shape[1]
    ctx.check((int(sc.batch_size), int(sc.num_ut), int(sc.num_bs)) == (B, N, S), f"{step}: reported sizes {int(sc.batch_size), int(sc.num_ut), int(sc.num_bs)}, current {(B, N, S)}")
    for n, v in (("ut_orientations", cur["ut_orientations"]), ("bs_orientations", cur["bs_orientations"]), ("ut_velocities", cur["ut_velocities"]), ("indoor", cur["in_state"]),
                 ("h_ut", cur["ut_loc"][..., 2]), ("h_bs", cur["bs_loc"][..., 2])):
        g = np.asarray(getattr(sc, n))
        ctx.check(g.shape == v.shape and np.array_equal(g, v), f"{step}: reported {n} is not the current value")
    d = cur["ut_loc"].astype(float)[:, None] - cur["bs_loc"].astype(float)[:, :, None]
    ctx.close(np.asarray(sc.distance_2d, float), np.hypot(d[..., 0], d[..., 1]), f"{step}: distance_2d", 1e-5, 1e-2)
    e = d / np.linalg.norm(d, axis=-1, keepdims=True)
    for z, a, w in ((sc.los_zod, sc.los_aod, e), (sc.los_zoa, sc.los_aoa, -e)):
        ctx.close(ref.unit(np.radians(np.asarray(z, float)), np.radians(np.asarray(a, float))), w, f"{step}: LoS direction", 0, 1e-5)
    ut = cur["ut_loc"].astype(float)
    ctx.close(np.asarray(sc.matrix_ut_distance_2d, float), np.linalg.norm(ut[:, :, None, :2] - ut[:, None, :, :2], axis=-1), f"{step}: terminal distances", 1e-5, 1e-2)
    los = np.asarray(sc.los)
    ctx.check(los.shape == (B, S, N), f"{step}: LoS state shape {los.shape}")
    ins = np.broadcast_to(cur["in_state"][:, None], los.shape)
    ctx.check(not (los & ins).any(), f"{step}: indoor terminal in LoS")
    if cur["los"] is not None:
        ctx.check(np.array_equal(los, ~ins & cur["los"]), f"{step}: requested LoS {cur['los']} not in effect: {los.ravel()} indoor {ins.ravel()}")
    c12.components(ctx, case, sc, cur, atm, case["sf"])


def run(case, ctx):
    import tensorflow as tf
    sut.seed(case["rs"])
    ch = None
    if case["kind"] == "channel":
        obj = ch = gen.mk_channel(case, always_generate_lsp=case["agl"], enable_shadow_fading=case["sf"])
        sc = ch._scenario
    else:
        obj = sc = gen.mk_scenario(case, enable_shadow_fading=case["sf"])
    tt = lambda v: tf.constant(v)
    given = set()
    for i, o in enumerate(case["pre"]):
        vals = values(case, o, (2, 2, 1))
        args = {n: tt(vals[n]) for j, n in enumerate(ARGS) if o["mask"] >> j & 1}
        if o["los"] is not None:
            args["los"] = o["los"]
        try:
            obj.set_topology(**args)
        except (AssertionError, ValueError, TypeError):
            given |= set(args)
            continue
        ctx.fail(f"incomplete first topology accepted (given {sorted(args)}, earlier rejected {sorted(given)})")
    cur, tens, atm, dop, lsp = {}, {}, {}, True, None
    updates = partial = calls_between = 0
    fresh = False
    prev_rays = None
    with observe() as log:
        for i, o in enumerate([case["first"]] + case["ops"]):
            step = f"operation {i} ({o['op']})"
            if o["op"] in ("set", "full", "same"):
                before = state(sc) if cur else None
                if o["op"] == "full":
                    new, env, d = values(case, o, (o["B"], o["N"], o["nb"])), {}, None
                elif o["op"] == "same":
                    # the very tensors of before, given again: an update like any other
                    new, env, d = {n: cur[n] for j, n in enumerate(ARGS) if o["mask"] >> j & 1}, {}, None
                    partial += 1
                else:
                    v = values(case, o, (cur["ut_loc"].shape[0], cur["ut_loc"].shape[1], cur["bs_loc"].shape[1]))
                    new = {n: v[n] for j, n in enumerate(ARGS) if o["mask"] >> j & 1}
                    env, d = (o["atm"], o["dop"]) if ch is None else ({}, None)
                    partial += 1
                args = {n: tens[n] if o["op"] == "same" else tt(v) for n, v in new.items()}
                tens.update(args)
                los = o["los"]
                if los is not None:
                    args["los"] = los if o["s"] % 2 else tf.constant(los)
                if d is not None:
                    args["doppler_enabled"] = d
                upd = obj.set_topology(**args, **env)
                cur.update(new)
                cur["los"] = los if los is not None else cur.get("los")
                atm = dict(atm, **env)
                dop = dop if d is None else d
                redraw = bool(set(new) & {"ut_loc", "bs_loc", "in_state"}) or los is not None
                updates += 1
                fresh = fresh or redraw
                if ch is None:
                    ctx.check(bool(upd) == redraw, f"{step}: set_topology reports need for update {upd}, positions/indoor/LoS given: {redraw}")
                    ctx.check(bool(sc.doppler_enabled) == dop, f"{step}: Doppler switch {sc.doppler_enabled}, current {dop}")
                    for n, x in {**c12.DEF, **atm}.items():
                        ctx.check(abs(float(getattr(sc, n)) - x) < 1e-5 * max(1, abs(x)), f"{step}: {n} is {getattr(sc, n)}, current value {x}")
                elif not redraw and before is not None:
                    now = state(sc)
                    for n in ("los", "distance_2d", "distance_3d", "los_aod", "los_zod", "basic_pathloss", "gas_pathloss", "scintillation_pathloss"):
                        ctx.check(np.array_equal(before[n], now[n]), f"{step}: {n} changed although neither positions, indoor states nor a LoS request were given")
                compare(ctx, case, sc, cur, atm, step)
                continue
            if ch is None:
                continue
            sut.seed((o["s"] * 16 + i) % (2**31 - 1))                                # calls of one history never share a seed
            before = state(sc)
            h, tau = ch(o["T"], 1e5)
            r = log[-1]
            calls_between += updates > 1
            now = state(sc)
            ctx.check(all(np.array_equal(before[n], now[n]) for n in now), f"{step}: the call changed the reported topology")
            ctx.check(np.all(np.isfinite(np.asarray(h).view(np.float32))) and np.asarray(h).shape[0] == cur["ut_loc"].shape[0], f"{step}: response")
            if lsp is not None:
                same = r["ds"].shape == lsp["ds"].shape and np.array_equal(r["ds"], lsp["ds"])
                if case["agl"] or fresh:
                    ctx.check(not same, f"{step}: large-scale parameters not redrawn ({'redraw on every call selected' if case['agl'] else 'topology updated since the last call'})")
                else:
                    for n in ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd"):
                        ctx.check(np.array_equal(r[n], lsp[n]), f"{step}: large-scale parameter {n} changed between calls without a topology update")
            if prev_rays is not None and prev_rays.shape == r["delays"].shape:
                ctx.check(not np.array_equal(prev_rays, r["delays"]), f"{step}: rays repeat between calls")
            lsp, fresh, prev_rays = r, False, r["delays"]
            ctx.check(np.array_equal(r["velocities"], cur["ut_velocities"]), f"{step}: the call uses other velocities than the current ones")
            tx, rx = ("ut_orientations", "bs_orientations") if case["dir"] == "uplink" else ("bs_orientations", "ut_orientations")
            ctx.check(np.array_equal(r["tx"], cur[tx]) and np.array_equal(r["rx"], cur[rx]), f"{step}: the call uses other orientations than the current ones")
            los = before["los"]
            ctx.check(np.array_equal(r["los"], np.swapaxes(los, 1, 2) if case["dir"] == "uplink" else los), f"{step}: the call uses other LoS states than reported")
            nc = tables.per_link(case, los, "numClusters")
            ctx.check(r["powers"].shape[:3] == los.shape, f"{step}: rays for links {r['powers'].shape[:3]}, current topology {los.shape}")
            used = (r["powers"] > 0).sum(-1)
            ctx.check(np.all(used <= nc), lambda: f"{step}: links use {used.ravel()} clusters, their current LoS states allow {nc.ravel()}")
    ctx.nt((updates > 1 and partial > 0) or calls_between > 0)
    ctx.label(case["kind"], "redraw always" if case["agl"] else "redraw on update", *(["rejected first"] if case["pre"] else []))


def s_corr():
    return st.fixed_dictionaries(dict(env=st.sampled_from(gen.ENVS), dir=st.sampled_from(gen.DIRS), fc=gen.carrier(), el=gen.elevation(), h=gen.height(), rs=gen.seeds(),
                                      seq=st.lists(st.sampled_from([.2, 1e6]), min_size=2, max_size=4), los=st.booleans(), how=st.sampled_from(["full", "ut_loc"]), agl=st.booleans()))


def fn_corr(case, ctx):
    """the spatial correlation in effect is the one of the current positions"""
    import tensorflow as tf
    sut.seed(case["rs"])
    ch = gen.mk_channel(case, always_generate_lsp=case["agl"])
    B, N = 60, 2
    f = lambda v: tf.constant(np.asarray(v, np.float32))
    z = np.zeros([B, N, 3])
    bs = np.zeros([B, 1, 3]); bs[..., 2] = case["h"]
    sd = tables.value(case, case["los"], "sigmaDS", tables.angle(case["el"])[0])
    ctx.nt(len(set(case["seq"])) > 1)
    with observe() as log:
        for i, dist in enumerate(case["seq"]):
            ut = np.zeros([B, N, 3]); ut[:, 1, 0] = dist; ut[..., 2] = 1.5
            if i == 0 or case["how"] == "full":
                ch.set_topology(f(ut), f(bs), f(z), f(z[:, :1]), f(z), tf.zeros([B, N], tf.bool), case["los"])
            else:
                ch.set_topology(ut_loc=f(ut))
            ch(1, 1.)
            x = np.log10(log[-1]["ds"].astype(float))[:, 0]
            v = np.sqrt(np.mean((x[:, 0] - x[:, 1]) ** 2)) / max(x.std(), 1e-3)
            # 60 pairs: independent values differ by sqrt(2) deviations, terminals 0.2 m apart by less than 0.3
            ctx.check(v > .6 if dist > 1 else v < .6, f"update {i}: terminals {dist} m apart, delay spreads differ by {v:.2f} deviations (history {case['seq']})")


SUBS = [Sub("history", s, run, quick=150, thorough=3000, shards=5, weight=6), Sub("correlation", s_corr, fn_corr, quick=60, thorough=800, shards=3, weight=4)]
