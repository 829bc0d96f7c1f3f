import numpy as np
from hypothesis import strategies as st
from scipy.special import j0
from harness import gen, stat, sut
from harness.core import Sub

RULE = ("angles: arrays of angles of any magnitude and precision through the conversions, round trips, and wrapping. bernoulli: shapes, broadcast probabilities, certain outcomes, frequencies and independence. certain: 10^8 samples per case at probability zero or one. "
        "exponential, one_ring: correlation matrices of batches of parameters against their definitions, Hermitian, unit diagonal, positive (semi-)definite; orbit: circular orbital speed and satellite Doppler. "
        "Non-trivial: more than one element.")
ASSUMPTIONS = ["wrapping tolerates one rounding of the input's precision; 360 itself can appear by rounding of tiny negative angles; denormal inputs are left out (TensorFlow flushes them)",
               "one-ring and exponential matrices are positive up to rounding (their smallest eigenvalue can be zero)"]


def dt(p):
    return np.float64 if p == "double" else np.float32


def s_ang():
    x = st.one_of(gen.fl(-1e4, 1e4), gen.fl(-1e-3, 1e-3), st.integers(-20, 20).map(lambda k: 90. * k), st.sampled_from([0., -0., 360., -360., 719.99994, 1e6, -1e6, 359.99997]))
    return st.fixed_dictionaries(dict(x=st.lists(x, min_size=1, max_size=12), prec=st.sampled_from(["single", "double"]), rank=st.integers(1, 3)))


def fn_ang(case, ctx):
    import tensorflow as tf
    u = sut.utils()
    x = np.array(case["x"]).astype(dt(case["prec"]))
    x[np.abs(x) < 1e-30] = 0                                                # TensorFlow flushes denormals
    x = x.reshape((-1,) + (1,) * (case["rank"] - 1))
    e = np.finfo(x.dtype).eps
    ctx.nt(x.size > 1)
    ctx.label(case["prec"])
    t = tf.constant(x)
    r, d = u.deg_2_rad(t), u.rad_2_deg(t)
    ctx.check(r.dtype == t.dtype and d.dtype == t.dtype and r.shape == t.shape and d.shape == t.shape, "type or shape")
    x = x.astype(float)
    ctx.close(np.asarray(r, float), x * np.pi / 180, "radians", 4 * e, 1e-36)
    ctx.close(np.asarray(d, float), x * 180 / np.pi, "degrees", 4 * e, 1e-36)
    ctx.close(np.asarray(u.rad_2_deg(r), float), x, "degrees -> radians -> degrees", 8 * e, 1e-35)
    ctx.close(np.asarray(u.deg_2_rad(d), float), x, "radians -> degrees -> radians", 8 * e, 1e-35)
    w = np.asarray(u.wrap_angle_0_360(t))
    ctx.check(w.dtype == t.dtype.as_numpy_dtype and w.shape == tuple(t.shape), "wrapped type or shape")
    w = w.astype(float)
    ctx.check(np.all((w >= 0) & (w <= 360) & ((w < 360) | (np.mod(x, 360.) > 360 * (1 - e)))), f"wrapped angle outside [0, 360): {w.ravel()} from {x.ravel()}")
    k = (w - x) / 360
    ctx.check(np.all(np.abs(w - x - 360 * np.round(k)) <= 4 * e * (np.abs(x) + 360)), f"wrapped angle not congruent: {w.ravel()} from {x.ravel()}")


def s_bern():
    return st.fixed_dictionaries(dict(shape=st.lists(st.integers(1, 4), min_size=0, max_size=3), kind=st.sampled_from(["scalar", "tensor", "last"]), p=st.lists(st.one_of(gen.fl(0., 1.), st.sampled_from([0., 1., .5])), min_size=4, max_size=4),
                                      prec=st.sampled_from([None, "single", "double"]), rs=gen.seeds()))


def fn_bern(case, ctx):
    import tensorflow as tf
    u = sut.utils()
    sut.seed(case["rs"])
    n = 3000
    shape = [n] + case["shape"]
    d = dt(case["prec"])
    last = shape[-1] if case["shape"] else 1
    p = np.array(case["p"][:last]) if case["kind"] == "last" and case["shape"] else np.array(case["p"][0])
    arg = tf.constant(p.astype(d)) if case["kind"] != "scalar" else tf.constant(float(p), d)
    z = u.sample_bernoulli(shape, arg, precision=case["prec"])
    ctx.nt(True)
    ctx.label(case["kind"], str(case["prec"]))
    ctx.check(tuple(z.shape) == tuple(shape) and z.dtype == tf.bool, f"samples {z.shape} {z.dtype}")
    z = np.asarray(z)
    pp = np.broadcast_to(p, z.shape[1:]).ravel()
    k = z.reshape(n, -1).sum(0)
    for a, b in zip(k, pp):
        b = float(np.float32(b)) if case["prec"] != "double" else b
        if b < 1e-7 or b > 1 - 1e-7:
            ctx.check(a == n * round(b), f"outcome of probability {b} occurred {a} times of {n}")
        else:
            ctx.check(stat.binom_ok(a, n, b), f"{a} of {n} samples true with probability {b}")
    x = z.reshape(n, -1)
    if x.shape[1] > 1:
        q = [i for i in range(x.shape[1]) if .2 < pp[i] < .8][:4]
        for i in q:
            for j in q:
                if i < j:
                    s = np.sqrt(pp[i] * (1 - pp[i]) * pp[j] * (1 - pp[j]) / n)
                    c = np.mean((x[:, i] - pp[i]) * (x[:, j] - pp[j]))
                    ctx.check(abs(c) < 7 * s, f"samples {i} and {j} depend on each other")
    y = np.asarray(u.sample_bernoulli(shape, arg, precision=case["prec"]))
    if np.any((pp > .05) & (pp < .95)):
        ctx.check(not np.array_equal(y, z), "successive samples identical")


def s_mat():
    return st.fixed_dictionaries(dict(shape=st.lists(st.integers(1, 3), min_size=0, max_size=3), n=st.integers(1, 12), rs=gen.seeds(), mag=st.sampled_from([0., .3, .9, .99]), real=st.booleans(), prec=st.sampled_from([None, "single", "double"]),
                                      dh=gen.fl(.05, 3.), sig=st.one_of(gen.fl(0., 15.), st.sampled_from([0., 15., 15])), zero=st.booleans()))


def judge(R, want, prec, ctx, what):
    import tensorflow as tf
    cd = np.complex128 if prec == "double" else np.complex64
    R = np.asarray(R)
    ctx.check(R.dtype == cd and R.shape == want.shape, f"{what}: {R.dtype} {R.shape}, expected {cd.__name__} {want.shape}")
    t = 1e-10 if prec == "double" else 3e-5
    ctx.check(np.all(np.isfinite(R.view(R.real.dtype))), f"{what}: not finite")
    ctx.check(np.abs(R - want).max() <= t, lambda: f"{what}: differs from the definition by {np.abs(R - want).max()}")
    ctx.check(np.all(R == np.conj(np.swapaxes(R, -1, -2))), f"{what}: not Hermitian")
    ctx.check(np.all(np.abs(np.diagonal(R, axis1=-2, axis2=-1) - 1) < 1e-6), f"{what}: diagonal not one")
    ev = np.linalg.eigvalsh(R.astype(complex))
    ctx.check(ev.min() > -t * R.shape[-1], f"{what}: not positive semi-definite ({ev.min()})")


def fn_exp(case, ctx):
    import tensorflow as tf
    u = sut.utils()
    r = np.random.default_rng(case["rs"])
    sh = case["shape"]
    a = case["mag"] * np.sqrt(r.random(sh)) * (np.sign(r.normal(size=sh)) if case["real"] else np.exp(1j * r.uniform(-np.pi, np.pi, sh)))
    a = np.asarray(a, dtype=np.complex128 if case["prec"] == "double" else np.complex64)
    if case["zero"] and a.size:
        a = a.copy(); a.reshape(-1)[0] = 0
    n = case["n"]
    ctx.nt(n > 1 and a.size > 1)
    ctx.label("exponential", str(case["prec"]))
    R = u.exp_corr_mat(tf.constant(a), n, precision=case["prec"])
    k = np.arange(n)[:, None] - np.arange(n)
    A = a.astype(complex)[..., None, None]
    want = np.where(k >= 0, A ** np.maximum(k, 0), np.conj(A) ** np.maximum(-k, 0))
    judge(R, want, case["prec"], ctx, "exponential correlation")
    try:
        u.exp_corr_mat(tf.constant(a / np.maximum(np.abs(a), 1e-9) * 1.2 if a.any() else np.ones_like(a)), n, precision=case["prec"])
    except Exception as e:
        ctx.check("absolute value" in str(e) or "smaller than one" in str(e), f"coefficient of magnitude 1.2 refused for another reason: {str(e)[:80]}")
    else:
        ctx.fail("coefficients of magnitude at least one accepted")


def fn_ring(case, ctx):
    import tensorflow as tf, warnings
    u = sut.utils()
    r = np.random.default_rng(case["rs"])
    phi = np.asarray(r.uniform(-180, 180, case["shape"])).astype(dt(case["prec"]))
    n = case["n"]
    ctx.nt(n > 1 and phi.size > 1)
    ctx.label("one ring", str(case["prec"]))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        R = u.one_ring_corr_mat(tf.constant(phi), n, d_h=case["dh"], sigma_phi_deg=case["sig"], precision=case["prec"])
        ctx.check(not any("sigma_phi" in str(x.message) for x in w), "warned for a valid angular deviation")
        u.one_ring_corr_mat(tf.constant(phi), n, d_h=case["dh"], sigma_phi_deg=15.5, precision=case["prec"])
        ctx.check(any("sigma_phi" in str(x.message) for x in w), "no warning for an angular deviation above 15 degrees")
    k = (np.arange(n)[:, None] - np.arange(n)) * 2 * np.pi * case["dh"]
    f = np.radians(phi.astype(float))[..., None, None]
    want = np.exp(1j * k * np.sin(f) - .5 * np.radians(case["sig"]) ** 2 * (k * np.cos(f)) ** 2)
    e = 1e-9 if case["prec"] == "double" else 3e-5
    R = np.asarray(R)
    ctx.check(R.dtype == (np.complex128 if case["prec"] == "double" else np.complex64) and R.shape == want.shape, f"one-ring matrix {R.dtype} {R.shape}")
    # the scalar constants pass through single precision: phase error up to k*2e-7
    ctx.check(np.abs(R - want).max() <= e + 1.2e-6 * np.abs(k).max() * (case["prec"] != "double") + 2e-7 * np.abs(k).max() ** 2, lambda: f"one-ring matrix differs from its definition by {np.abs(R - want).max()}")
    ctx.check(np.all(R == np.conj(np.swapaxes(R, -1, -2))), "one-ring matrix not Hermitian")
    ctx.check(np.all(np.abs(np.diagonal(R, axis1=-2, axis2=-1) - 1) < 1e-6), "one-ring diagonal not one")
    ctx.check(np.linalg.eigvalsh(R.astype(complex)).min() > -1e-4 * n, "one-ring matrix not positive semi-definite")


def s_orbit():
    return st.fixed_dictionaries(dict(h=st.lists(gen.fl(1e5, 4e7), min_size=1, max_size=5), el=gen.fl(0., 90.), fc=gen.carrier()))


def fn_orbit(case, ctx):
    import tensorflow as tf
    u = sut.utils()
    h = np.array(case["h"], np.float32)
    ctx.nt(h.size > 1)
    ctx.label("orbit")
    v = np.asarray(u.compute_satellite_speed(tf.constant(h)), float)
    want = np.sqrt(6.6743e-11 * 5.972e24 / (6371e3 + h.astype(float)))
    ctx.close(v, want, "circular orbital speed", 1e-5, 0)
    f = np.asarray(u.compute_stallite_doppler(tf.constant(h), case["el"], case["fc"]), float)
    shift = want / 299792458. * 6371e3 / (6371e3 + h.astype(float)) * np.cos(np.radians(case["el"])) * case["fc"]
    # the returned value is the shifted carrier, in single precision
    ctx.close(f - case["fc"], shift, "Doppler-shifted carrier minus carrier", 1e-4, 3e-7 * case["fc"])


def s_certain():
    return st.fixed_dictionaries(dict(p=st.sampled_from([0., 1.]), prec=st.sampled_from([None, "single"]), rs=gen.seeds(), kind=st.sampled_from(["float", "scalar", "tensor"])))


def fn_certain(case, ctx):
    """single-precision uniform numbers take 2^23 values: 10^8 samples meet both ends of the range"""
    import tensorflow as tf
    u = sut.utils()
    sut.seed(case["rs"])
    n = 20_000_000
    p = case["p"]
    arg = p if case["kind"] == "float" else tf.constant(p, tf.float32) if case["kind"] == "scalar" else tf.fill([1], np.float32(p))
    for _ in range(5):
        k = int(tf.math.count_nonzero(u.sample_bernoulli([n], arg, precision=case["prec"])))
        ctx.check(k == n * int(p), f"outcome of probability {p} occurred {k} times of {n}")
    ctx.nt(True)


SUBS = [Sub("certain", s_certain, fn_certain, 6, 12, shards=2, weight=3), Sub("angles", s_ang, fn_ang, 400, 8000), Sub("bernoulli", s_bern, fn_bern, 250, 4000), Sub("exponential", s_mat, fn_exp, 300, 5000), Sub("one_ring", s_mat, fn_ring, 300, 5000), Sub("orbit", s_orbit, fn_orbit, 150, 3000)]
