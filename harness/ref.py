"""Independent float64 reference formulas."""
import numpy as np
from scipy import special

C0 = 299792458.0
RE = 6371000.0


def gain(pattern, theta, phi):
    """element power gain (linear) of the named pattern; theta zenith, phi azimuth in (-pi,pi]"""
    theta, phi = np.asarray(theta, float), np.asarray(phi, float)
    td, pd = np.degrees(theta), np.degrees(phi)
    if pattern == "omni":
        return np.ones(np.broadcast(theta, phi).shape)
    if pattern == "38.901":
        av = -np.minimum(12 * ((td - 90) / 65) ** 2, 30)
        ah = -np.minimum(12 * (pd / 65) ** 2, 30)
        return 10 ** ((8 - np.minimum(-(av + ah), 30)) / 10)
    if pattern == "dlp":
        av = -np.minimum(12 * ((td - 90) / 90) ** 2, 25)
        ah = -np.minimum(12 * (pd / 90) ** 2, 25)
        return 10 ** (-np.minimum(-(av + ah), 25) / 10)
    if pattern == "aperture":
        r = np.arccos(np.clip(np.sin(theta) * np.cos(phi), -1, 1))
        return aperture(r)
    raise KeyError(pattern)


def aperture(r, a=10.0):
    """TR 38.811 6.4.1: 4 |J1(ka sin r) / (ka sin r)|^2, 1 at r = 0, radius 10 wavelengths"""
    x = 2 * np.pi * a * np.sin(r)
    with np.errstate(all="ignore"):
        g = np.where(np.abs(x) < 1e-9, 1.0, 4 * np.abs(special.j1(x) / np.where(x == 0, 1, x)) ** 2)
    return np.where(r > np.pi / 2, 0.0, g)


def gain_tol(pattern, theta, phi):
    """absolute tolerance of a float32 evaluation"""
    g = gain(pattern, theta, phi)
    tol = 2e-4 * g + 1e-7
    if pattern == "aperture":
        r = np.arccos(np.clip(np.sin(theta) * np.cos(phi), -1, 1))
        eps = 6e-8
        d = 3 * eps / np.maximum(np.sin(r), np.sqrt(eps)) + 3e-7
        near = np.maximum(np.abs(aperture(r + d) - g), np.abs(aperture(np.abs(r - d)) - g))
        # straddling the 90 degree cut-off
        tol = tol + 3 * near + 1e-7
        tol = np.where(np.abs(r - np.pi / 2) < 1e-5, 1.0, tol)
        x = 2 * np.pi * 10 * d
        tol = tol + x * x * 4
    return tol


def slant_range(h, el_deg):
    s = np.sin(np.radians(el_deg))
    return np.sqrt(RE ** 2 * s ** 2 + h ** 2 + 2 * h * RE) - RE * s


def unit(theta, phi):
    return np.stack([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta) * np.ones_like(phi)], -1)


def rot(a, b, c):
    """TR 38.901 7.1-4: R = Rz(a) Ry(b) Rx(c)"""
    ca, sa, cb, sb, cc, sc = np.cos(a), np.sin(a), np.cos(b), np.sin(b), np.cos(c), np.sin(c)
    z = np.zeros_like(ca * cb * cc)
    o = z + 1
    rz = np.stack([np.stack([ca + z, -sa + z, z], -1), np.stack([sa + z, ca + z, z], -1), np.stack([z, z, o], -1)], -2)
    ry = np.stack([np.stack([cb + z, z, sb + z], -1), np.stack([z, o, z], -1), np.stack([-sb + z, z, cb + z], -1)], -2)
    rx = np.stack([np.stack([o, z, z], -1), np.stack([z, cc + z, -sc + z], -1), np.stack([z, sc + z, cc + z], -1)], -2)
    return rz @ ry @ rx


def th_hat(theta, phi):
    return np.stack([np.cos(theta) * np.cos(phi), np.cos(theta) * np.sin(phi), -np.sin(theta) * np.ones_like(phi)], -1)


def ph_hat(theta, phi):
    return np.stack([-np.sin(phi) * np.ones_like(theta), np.cos(phi) * np.ones_like(theta), np.zeros_like(theta * phi)], -1)


def gcs_field(pattern, slant, R, theta, phi):
    """Global-frame (theta, phi) field components of an element rotated by R (..., 3, 3).

    Built from vectors: local direction, local spherical basis, local field vector rotated to global."""
    u = unit(theta, phi)
    loc = np.einsum("...ji,...j->...i", R, u)                  # R^T u
    lt = np.arccos(np.clip(loc[..., 2], -1, 1))
    lp = np.arctan2(loc[..., 1], loc[..., 0])
    a = np.sqrt(gain(pattern, lt, lp))
    vec = a[..., None] * (np.cos(slant) * th_hat(lt, lp) + np.sin(slant) * ph_hat(lt, lp))
    vec = np.einsum("...ij,...j->...i", R, vec)
    return np.stack([np.sum(vec * th_hat(theta, phi), -1), np.sum(vec * ph_hat(theta, phi), -1)], -1)


def elem_positions(d, lam):
    """element positions [m] of an array description, in OpenNTN's index order"""
    ev, eh = d.get("ev") or 0.5, d.get("eh") or 0.5
    pv = d["pv"] if d.get("pv") else (d["r"] - 1) * ev + 0.5
    ph = d["ph"] if d.get("ph") else (d["c"] - 1) * eh + 0.5
    out, pol = [], []
    for j in range(d["pc"]):
        for i in range(d["pr"]):
            cy = (j - (d["pc"] - 1) / 2) * ph
            cz = ((d["pr"] - 1) / 2 - i) * pv
            for p in range(2 if d["pol"] == "dual" else 1):
                for c in range(d["c"]):
                    for r in range(d["r"]):
                        out.append([0.0, cy + (c - (d["c"] - 1) / 2) * eh, cz + ((d["r"] - 1) / 2 - r) * ev])
                        pol.append(p)
    return np.array(out) * lam, np.array(pol)


SLANTS = {"V": (0.0,), "H": (np.pi / 2,), "VH": (0.0, np.pi / 2), "cross": (-np.pi / 4, np.pi / 4)}


def sat_speed(h, el):
    """line-of-sight component of the circular orbital speed, TR 38.811 section 6.8.1"""
    return np.sqrt(6.6743e-11 * 5.972e24 / (6371e3 + h)) * 6371e3 / (6371e3 + h) * np.cos(np.radians(el))
