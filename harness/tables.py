"""Golden copy of the TR 38.811 tables (data/tables.json), independent of /repo/OpenNTN/models."""
import json, os
import numpy as np

_T = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "tables.json")))
ANG = [10, 20, 30, 40, 50, 60, 70, 80, 90]


def band(fc):
    return "S" if fc <= 4e9 else "Ka"


def angle(el):
    """tabulated elevation(s) nearest to el (two on a tie)"""
    d = [abs(a - el) for a in ANG]
    m = min(d)
    return [a for a, x in zip(ANG, d) if x <= m + 1e-9]


def table(env, los, fc, direction):
    return _T[f"{env}/{'LOS' if los else 'NLOS'}/{band(fc)}/{'UL' if direction == 'uplink' else 'DL'}"]


def value(c, los, name, ang=None):
    t = table(c["env"], los, c["fc"], c["dir"])
    if name in ("CPhiNLoS", "CThetaNLoS"):
        return float(t[name])
    a = ang if ang is not None else angle(c["el"])[0]
    return float(t[f"{name}_{a}"])


NAMES = sorted({k.rsplit("_", 1)[0] for k in _T["Urban/LOS/S/DL"] if k[-1] == "0"} - {"LoS_p"})


def per_link(c, los, name, ang=None):
    los = np.asarray(los, bool)
    return np.where(los, value(c, True, name, ang), value(c, False, name, ang))
