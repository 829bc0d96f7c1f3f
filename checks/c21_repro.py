import itertools, random
import numpy as np
from hypothesis import strategies as st
from checks import c14_response as c14
from harness import gen, sut, zygote
from harness.core import Sub

RULE = ("repeat: the same seeds, constructions, topology and calls twice, bit for bit, with fresh objects and with one object used again after re-seeding, and different after another seed. interleave: a random sequence of seeded operations on up to three objects "
        "(sharing array objects or not) against each object's own operations run alone, bit for bit. fresh: models that agree in sizes but not in environment, band, direction or elevation, built after each other, against each one alone in a newly forked process, bit for bit. graph: compiled calls (traced, some with XLA; topology set outside or drawn inside) against the "
        "double-precision coefficient equations fed with the draws of the same execution, with every draw fresh on every execution. agree: powers and delays of compiled and eager calls have the same means. "
        "Non-trivial: several links, objects or executions.")
ASSUMPTIONS = ["both TensorFlow's global seed and Sionna's configuration seed are set, the package draws from both generators; NumPy's and Python's global generators are deliberately in another state each time",
               "means are compared within 9 standard errors per execution sample"]


_nth = itertools.count(1)


def reseed(s):
    """the documented seeds only: generators outside TensorFlow and Sionna's configuration are never in the same state twice"""
    sut.seed(s)
    k = next(_nth)
    random.seed(k); np.random.seed(k)


def arr():
    return gen.array(max_ant=2, patterns=("omni", "38.901"))


def chan(c, ut=None, bs=None, **kw):
    m = sut.load()
    if ut is None:
        return gen.mk_channel(c, **kw)
    return getattr(m, c["env"])(carrier_frequency=c["fc"], ut_array=ut, bs_array=bs, direction=c["dir"], elevation_angle=c["el"], **kw)


SCN = {"DenseUrban": "dur", "Urban": "urb", "SubUrban": "sur"}


def s_repeat():
    return st.fixed_dictionaries(dict(c=gen.config(arr()), t=gen.topo(3, 3), T=st.integers(1, 4), rs=gen.seeds(), n=st.integers(1, 3), gen=st.booleans(), agl=st.booleans(), sf=st.booleans(), other=st.booleans()))


def fn_repeat(case, ctx):
    c, t = case["c"], case["t"]

    def go(seed, ch=None):
        reseed(seed)
        if ch is None:
            ch = chan(c, always_generate_lsp=case["agl"], enable_shadow_fading=case["sf"])
        else:                                                               # the same object, in the state a used one is in
            reseed(seed)
        out = []
        if case["gen"]:
            topo = sut.utils().gen_single_sector_topology(t["B"], t["N"], SCN[c["env"]], bs_height=c["h"], elevation_angle=c["el"])
            ch.set_topology(*topo)
            out += [np.asarray(x) for x in topo]
        else:
            gen.set_topo(ch, t, c["h"])
        out.append(np.asarray(ch._scenario.los))
        for _ in range(case["n"]):
            out += [np.asarray(x) for x in ch(case["T"], 1e4)]
        last.append(ch)
        return out
    last = []
    a = go(case["rs"])
    if case["other"]:                                                       # something else happens in between
        go(case["rs"] // 2 + 5)
    b = go(case["rs"])
    used = last[case["rs"] % len(last)]
    r1 = go(case["rs"] + 2, used)
    if case["other"]:
        used(1, 1e3)
    r2 = go(case["rs"] + 2, used)
    ctx.check(len(r1) == len(r2) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(r1, r2)), "a model used again after setting the same seeds and topology gives different results")
    ctx.nt(True)
    ctx.label(c["env"], c["dir"], "generated" if case["gen"] else "given")
    ctx.check(len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b)), "the same seeds and inputs give different results")
    d = go(case["rs"] + 1)
    ctx.check(a[-1].shape != d[-1].shape or not np.array_equal(a[-2], d[-2]), "a different seed gives the same coefficients")
    if case["n"] > 1:
        ctx.check(a[-1].shape != a[-3].shape or not np.array_equal(a[-2], a[-4]), "successive calls return the same coefficients")


def s_inter():
    obj = gen.config(arr())
    op = st.fixed_dictionaries(dict(o=st.integers(0, 2), k=st.sampled_from(["call", "call", "call", "vel", "move", "new"]), s=gen.seeds(), T=st.integers(1, 2)))
    return st.fixed_dictionaries(dict(objs=st.lists(obj, min_size=2, max_size=3), same=st.booleans(), share=st.booleans(), ops=st.lists(op, min_size=3, max_size=9), t=gen.topo(2, 3), rs=gen.seeds()))


def fn_inter(case, ctx):
    import tensorflow as tf
    objs = case["objs"]
    if case["same"]:
        objs = [dict(objs[0]) for _ in objs]
    if case["share"]:
        objs = [dict(o, fc=objs[0]["fc"], ut=objs[0]["ut"], bs=objs[0]["bs"]) for o in objs]
    n = len(objs)
    ops = [dict(o, o=o["o"] % n) for o in case["ops"]]
    t = case["t"]

    def run(which):
        shared = (gen.mk_array(objs[0]["ut"], objs[0]["fc"]), gen.mk_array(objs[0]["bs"], objs[0]["fc"])) if case["share"] else (None, None)
        chs, res = {}, {i: [] for i in which}
        for i in which:
            reseed(case["rs"] + i)
            chs[i] = chan(objs[i], *shared)
            gen.set_topo(chs[i], dict(t, ts=t["ts"] + i, B=1 + (t["B"] + i) % 3), objs[i]["h"])
        for o in ops:
            i = o["o"]
            if i not in which:
                continue
            reseed(o["s"])
            ch = chs[i]
            B, N = ch._scenario.batch_size, ch._scenario.num_ut
            if o["k"] == "call":
                res[i] += [np.asarray(x) for x in ch(o["T"], 1e4)]
            elif o["k"] == "vel":
                ch.set_topology(ut_velocities=tf.random.normal([int(B), int(N), 3]))
            elif o["k"] == "move":
                ch.set_topology(ut_loc=tf.concat([tf.random.normal([int(B), int(N), 2]) * 300., tf.ones([int(B), int(N), 1])], -1))
            else:
                chs[i] = chan(objs[i], *shared)
                gen.set_topo(chs[i], dict(t, ts=o["s"]), objs[i]["h"])
            res[i].append(np.asarray(chs[i]._scenario.los))
        return res
    both = run(range(n))
    ctx.nt(len({o["o"] for o in ops}) > 1 and any(o["k"] == "call" for o in ops))
    ctx.label("shared arrays" if case["share"] else "own arrays", "%d objects" % n)
    for i in range(n):
        alone = run([i])[i]
        ctx.check(len(alone) == len(both[i]) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(alone, both[i])), f"object {i}'s results depend on the other objects' calls")


def s_fresh():
    """several models that agree in their sizes, so that whatever is kept between objects by size meets another environment, band, direction or elevation"""
    @st.composite
    def go(draw):
        base = draw(gen.config(arr()))
        objs = [base]
        for _ in range(draw(st.integers(1, 3))):
            o = dict(draw(st.sampled_from(objs)))
            for k in draw(st.lists(st.sampled_from(["env", "dir", "fc", "el", "h", "ut"]), min_size=1, max_size=2, unique=True)):
                o[k] = draw(gen.config(arr()))[k]
            objs.append(o)
        return dict(objs=objs, t=draw(gen.topo(2, 3, los=(True, False, None), stations=True)), T=draw(st.integers(1, 3)), rs=draw(gen.seeds()), agl=draw(st.booleans()), tdl=draw(st.booleans()))
    return go()


def one(job):
    """the results of one model that is built and used with the given seeds"""
    c, t, rs = job["c"], job["t"], job["rs"]
    m = sut.load()
    reseed(rs)
    if job["tdl"]:
        x = m.TDL(model="ABCD"[rs % 4], delay_spread=1e-7, carrier_frequency=c["fc"], num_rx_ant=gen.num_ant(c["ut"]), min_speed=3.)
        return [np.asarray(v) for v in x(t["B"], job["T"], 1e5)] + [np.asarray(x.delays), np.asarray(x.mean_powers)]
    ch = chan(c, always_generate_lsp=job["agl"])
    gen.set_topo(ch, t, c["h"])
    out = [np.asarray(ch._scenario.los)]
    for i in range(2):
        out += [np.asarray(v) for v in ch(job["T"], 1e4)]
        gen.set_topo(ch, dict(t, ts=t["ts"] + 1), c["h"])
    return out


def fn_fresh(case, ctx):
    jobs = [dict(c=c, t=case["t"], T=case["T"], rs=case["rs"], agl=case["agl"], tdl=case["tdl"] and i == 0) for i, c in enumerate(case["objs"])]
    mine = [one(j) for j in jobs]
    ctx.nt(True)
    ctx.label("%d objects" % len(jobs))
    for i, j in enumerate(jobs):
        r = zygote.fresh("checks.c21_repro", "one", j)
        if r is None:
            ctx.label("process died")
            continue
        ctx.check(r[0], lambda: f"object {i} alone in a process: {r[1][-400:]}")
        ctx.check(len(r[1]) == len(mine[i]) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(r[1], mine[i])),
                  f"object {i} gives different results in a process where no other object has existed")


def s_graph():
    return st.fixed_dictionaries(dict(c=gen.config(arr()), t=gen.topo(2, 2, stations=False), rs=gen.seeds(), mode=st.sampled_from(["fixed", "fixed", "inside"]), agl=st.booleans(), jit=st.sampled_from([False, False, False, True]), v0=st.booleans()))


def fn_graph(case, ctx):
    import tensorflow as tf
    c, t = case["c"], dict(case["t"], nb=1)
    u = sut.utils()
    reseed(case["rs"])
    ch = chan(c, enable_pathloss=False, enable_shadow_fading=False, always_generate_lsp=case["agl"])
    inside = case["mode"] == "inside"
    arrs = None if inside else gen.set_topo(ch, t, c["h"])
    names = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state")
    T, fs = 2, max(2e5, 1e-3 * c["fc"])

    def step():
        topo = ()
        if inside:
            topo = u.gen_single_sector_topology(t["B"], t["N"], SCN[c["env"]], bs_height=c["h"], elevation_angle=c["el"])
            ch.set_topology(*topo)
        with c14.observe(keep=lambda x: x) as log:
            a, tau = ch(T, fs)
        return a, tau, log, topo, ch._scenario.los
    f = tf.function(step, jit_compile=True) if case["jit"] else tf.function(step)
    runs = [f() for _ in range(3)]
    ctx.nt(True)
    ctx.label(case["mode"], "XLA" if case["jit"] else "graph", c["dir"])
    if not inside:
        e = ch(T, fs)
        for r in runs:
            ctx.check(tuple(r[0].shape) == tuple(e[0].shape) and tuple(r[1].shape) == tuple(e[1].shape) and r[0].dtype == e[0].dtype and r[1].dtype == e[1].dtype,
                      f"compiled call returns {r[0].shape} {r[1].shape}, eager {e[0].shape} {e[1].shape}")
    num = lambda x: np.asarray(x).astype(float)
    logs = []
    for a, tau, log, topo, los in runs:
        log = dict(rays={k: num(v) for k, v in log["rays"].items()}, **{k: num(log[k]) for k in ("k", "ds", "sf", "phi", "t")})
        logs.append(log)
        ar = {k: np.asarray(v) for k, v in zip(names, topo)} if inside else arrs
        if inside:
            ctx.check(np.array_equal(np.round(ar["bs_loc"][..., 2]), np.round(np.full((t["B"], 1), c["h"], np.float32))), "station height of the topology drawn in the graph")
        an, tn = np.asarray(a), np.asarray(tau)
        ctx.check(np.all(np.isfinite(an.view(np.float32))) and np.all(np.isfinite(tn)), "compiled call not finite")
        ctx.check(np.all(tn[..., 0] == 0) and np.all(np.diff(tn, axis=-1) >= 0), "delays of the compiled call not ascending from zero")
        c14.judge(dict(c, t=t), ctx, np.asarray(los), ar, log, an, tn)
    for i in range(2):
        x, y = logs[i], logs[i + 1]
        for k in ("delays", "powers", "aoa", "zoa", "xpr"):                  # station-side angles may have no spread
            if x["rays"][k].shape == y["rays"][k].shape:
                ctx.check(not np.array_equal(x["rays"][k], y["rays"][k]), f"ray {k} identical in successive executions of the compiled call")
        if x["phi"].shape == y["phi"].shape:
            ctx.check(not np.array_equal(x["phi"], y["phi"]), "initial phases identical in successive executions of the compiled call")
        same = all(np.array_equal(x[k], y[k]) for k in ("k", "ds", "sf"))
        if inside or case["agl"]:
            ctx.check(not np.array_equal(x["ds"], y["ds"]) and not np.array_equal(x["sf"], y["sf"]), "large-scale parameters not redrawn in successive executions of the compiled call")
        else:
            ctx.check(same, "large-scale parameters change between executions although the topology does not")
        if inside:
            ctx.check(not np.array_equal(np.asarray(runs[i][3][0]), np.asarray(runs[i + 1][3][0])), "terminal positions identical in successive executions")
    if not inside and not t["vmax"] and c["h"] >= 6e5 and c["el"] < 85:
        # all paths of the station advance by the satellite's random Doppler
        z = np.array([np.angle(np.sum(np.conj(np.asarray(r[0])[..., 0]) * np.asarray(r[0])[..., 1], axis=tuple(range(1, 6))))[0] for r in runs])
        ctx.check(np.ptp(z) > 1e-7, "satellite Doppler identical in all executions of the compiled call")


def s_agree():
    return st.fixed_dictionaries(dict(c=gen.config(gen.siso()), t=gen.topo(1, 3), rs=gen.seeds(), pl=st.booleans(), agl=st.just(False)))


def fn_agree(case, ctx):
    import tensorflow as tf
    c, t = case["c"], case["t"]
    reseed(case["rs"])
    ch = chan(c, enable_pathloss=case["pl"], enable_shadow_fading=False)
    # identical examples: the batch is the sample (their large-scale parameters differ, but both modes share them)
    a = gen.topo_arrays(dict(t, B=1), c["h"])
    n = 60
    kw = {k: tf.constant(np.repeat(v, n, axis=0)) for k, v in a.items()}
    if t["los"] is not None:
        kw["los"] = tf.constant(t["los"])
    ch.set_topology(**kw)
    f = tf.function(lambda: ch(1, 1e4))
    ctx.nt(True)
    ctx.label(c["dir"], c["env"])
    st_ = []
    for call in (f, lambda: ch(1, 1e4)):
        rows = []
        for _ in range(4):
            h, tau = [np.asarray(x) for x in call()]
            p = np.sum(np.abs(h.astype(complex)) ** 2, axis=(2, 4, 6)).reshape(-1, h.shape[5])
            tau = tau.reshape(-1, h.shape[5]).astype(float)
            P = p.sum(-1)
            rows.append(np.stack([P, p[:, 0] / P, np.minimum((p * tau).sum(-1) / P, 1e-4)], -1))
        st_.append(np.stack(rows))                                          # [4, links, 3]
    if case["pl"]:
        g = np.exp(np.mean(np.log(np.concatenate(st_)[..., 0]), axis=0))    # per-link scale
        for s in st_:
            s[..., 0] /= g
    g, e = (s.mean(axis=0) for s in st_)
    d = g - e                                                               # paired by link: same large-scale parameters
    m, se = d.mean(axis=0), d.std(axis=0) / np.sqrt(len(d))
    for i, nm in enumerate(("mean link power", "first path's share", "mean excess delay")):
        ctx.check(abs(m[i]) <= 9 * se[i] + 1e-9 * (i == 2) + 1e-3 * (i < 2), f"{nm}: compiled minus eager {m[i]:.3e}, standard error {se[i]:.1e}")


SUBS = [Sub("fresh", s_fresh, fn_fresh, 32, 500, shards=4, weight=6.), Sub("repeat", s_repeat, fn_repeat, 40, 700, shards=3, weight=4.), Sub("interleave", s_inter, fn_inter, 30, 500, shards=3, weight=5.),
        Sub("graph", s_graph, fn_graph, 16, 200, shards=5, weight=8.), Sub("agree", s_agree, fn_agree, 8, 120, shards=3, weight=5.)]
