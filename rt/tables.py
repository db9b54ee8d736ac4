"""Frozen copy of the standard's parameter tables (TR 38.811 6.6 and 6.7.2).

rt/tables/*.json were copied from the pinned commit; the rows of TR 38.811
tables 6.6.1-1 and 6.6.2-1..3 (LOS probability, shadowing, clutter loss) are
transcribed here independently and cross-checked against that copy at load.
"""
import functools
import json
import os

import numpy as np

DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables")
NAMES = {"dur": "Dense_Urban", "urb": "Urban", "sur": "Sub_Urban"}
PER_STATE = ("CPhiNLoS", "CThetaNLoS")
LSP = ("DS", "ASD", "ASA", "SF", "K", "ZSA", "ZSD")
CORR = {(0, 1): "corrASDvsDS", (0, 2): "corrASAvsDS", (0, 3): "corrDSvsSF",
        (0, 4): "corrDSvsK", (0, 5): "corrZSAvsDS", (0, 6): "corrZSDvsDS",
        (1, 2): "corrASDvsASA", (1, 3): "corrASDvsSF", (1, 4): "corrASDvsK",
        (1, 5): "corrZSAvsASD", (1, 6): "corrZSDvsASD",
        (2, 3): "corrASAvsSF", (2, 4): "corrASAvsK", (2, 5): "corrZSAvsASA",
        (2, 6): "corrZSDvsASA", (3, 4): "corrSFvsK", (3, 5): "corrZSAvsSF",
        (3, 6): "corrZSDvsSF", (4, 5): "corrZSAvsK", (4, 6): "corrZSDvsK",
        (5, 6): "corrZSDvsZSA"}
MAX = (None, 104.0, 104.0, None, None, 52.0, 52.0)

PUBLISHED = {
    ("LOS", "LoS_p"): {"dur": (28.2, 33.1, 39.8, 46.8, 53.7, 61.2, 73.8, 82.0, 98.1),
                       "urb": (24.6, 38.6, 49.3, 61.3, 72.6, 80.5, 91.9, 96.8, 99.2),
                       "sur": (78.2, 86.9, 91.9, 92.9, 93.5, 94.0, 94.9, 95.2, 99.8)},
    ("LOS", "sigmaSF", "S"): {"dur": (3.5, 3.4, 2.9, 3.0, 3.1, 2.7, 2.5, 2.3, 1.2),
                              "urb": (4,) * 9,
                              "sur": (1.79, 1.14, 1.14, 0.92, 1.42, 1.56, 0.85, 0.72, 0.72)},
    ("NLOS", "sigmaSF", "S"): {"dur": (15.5, 13.9, 12.4, 11.7, 10.6, 10.5, 10.1, 9.2, 9.2),
                               "urb": (6,) * 9,
                               "sur": (8.93, 9.08, 8.78, 10.25, 10.56, 10.74, 10.17, 11.52, 11.52)},
    ("NLOS", "CL", "S"): {"dur": (34.3, 30.9, 29.0, 27.7, 26.8, 26.2, 25.8, 25.5, 25.5),
                          "urb": (34.3, 30.9, 29.0, 27.7, 26.8, 26.2, 25.8, 25.5, 25.5),
                          "sur": (19.52, 18.17, 18.42, 18.28, 18.63, 17.68, 16.50, 16.30, 16.30)},
    ("LOS", "sigmaSF", "Ka"): {"dur": (2.9, 2.4, 2.7, 2.4, 2.4, 2.7, 2.6, 2.8, 0.6),
                               "urb": (4,) * 9,
                               "sur": (1.9, 1.6, 1.9, 2.3, 2.7, 3.1, 3.0, 3.6, 0.4)},
    ("NLOS", "sigmaSF", "Ka"): {"dur": (17.1, 17.1, 15.6, 14.6, 14.2, 12.6, 12.1, 12.3, 12.3),
                                "urb": (6,) * 9,
                                "sur": (10.7, 10.0, 11.2, 11.6, 11.8, 10.8, 10.8, 10.8, 10.8)},
    ("NLOS", "CL", "Ka"): {"dur": (44.3, 39.9, 37.5, 35.8, 34.6, 33.8, 33.3, 33.0, 32.9),
                           "urb": (44.3, 39.9, 37.5, 35.8, 34.6, 33.8, 33.3, 33.0, 32.9),
                           "sur": (29.5, 24.6, 21.9, 20.0, 18.7, 17.8, 17.2, 16.9, 16.8)},
}


def band(fc):
    return "S" if fc <= 4e9 else "Ka"


@functools.lru_cache(None)
def load(scen, state, bnd, direction):
    d = "UL" if direction == "uplink" else "DL"
    with open(f"{DIR}/{NAMES[scen]}_{state}_{bnd}_band_{d}.json") as f:
        t = {k: float(v) for k, v in json.load(f).items()}
    for key, rows in PUBLISHED.items():
        if key[0] == state and (len(key) == 2 or key[2] == bnd):
            got = [t[f"{key[1]}_{a}"] for a in range(10, 91, 10)]
            want = [x / 100 if key[1] == "LoS_p" else x for x in rows[scen]]
            assert np.allclose(got, want, rtol=1e-9), (key, scen)
    return t


def nearest(elev):
    return max(10, min(90, int(np.floor(elev / 10.0 + 0.5)) * 10))


def value(c, name, los, elev=None):
    """Tabulated value for configuration c in the given state."""
    t = load(c["scen"], "LOS" if los else "NLOS", band(c["fc"]), c["dir"])
    if name in PER_STATE:
        return t[name]
    return t[f"{name}_{nearest(c['elev'] if elev is None else elev)}"]


def per_link(c, name, los):
    """Per-link array of the value for the boolean array los."""
    return np.where(los, value(c, name, True) if name != "CL" else 0.0,
                    value(c, name, False))


def lsp_mean(c, los):
    """[7] log-domain means."""
    v = [value(c, "mu" + p, los) if p != "SF" else 0.0 for p in LSP]
    v[4] /= 10.0
    return np.array(v)


def lsp_std(c, los):
    v = [value(c, "sigma" + p, los) for p in LSP]
    v[3] /= 10.0
    v[4] /= 10.0
    return np.array(v)


def corr(c, los):
    m = np.eye(7)
    for (i, j), n in CORR.items():
        m[i, j] = m[j, i] = value(c, n, los)
    return m


def corr_dist(c, los):
    return np.array([value(c, "corrDist" + p, los) for p in LSP])


def clusters(c, los):
    return int(value(c, "numClusters", los))
