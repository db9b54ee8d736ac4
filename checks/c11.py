"""C11: large-scale parameters carry the tabulated cross and spatial correlation.

Measured on the drawn parameters: Pearson correlation where the hard limits do
not censor a parameter, orthant probabilities at a threshold below the limit
otherwise.
"""
import math

import numpy as np
from scipy.stats import multivariate_normal as mvn

from rt import tables as T, workload as W
from rt.boot import boot
from rt.recorder import LSP_FIELDS, np_of, record

RULE = ("one distinct case = (scenario, band, direction, tabulated angle, layout, states of the "
        "pair, pair of parameters or distance class)")
MIN_EVENTS = {"cross correlation": 300, "spatial correlation": 200, "uncorrelated states": 20,
              "uncorrelated examples": 50, "uncorrelated platforms": 20, "unit variance": 100,
              "increments": 20}
ANT = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")
Z = 7.0
LAYOUTS = ("single", "near", "mixed", "far", "platforms")


def cases(tier, rng):
    out = []
    combos = [(s, b, d, a) for s in W.SCEN for b in ("S", "Ka") for d in ("downlink", "uplink")
              for a in range(10, 91, 10)]
    step = 3 if tier == "quick" else 1
    off = rng.randrange(3)
    for i, (s, b, d, a) in enumerate(combos):
        if (i + i // 9 + off) % step:
            continue
        for lay in ("single", LAYOUTS[1 + (i // step) % 4]) if tier == "quick" else LAYOUTS:
            los = None if lay in ("mixed", "platforms") else bool(rng.randrange(2))
            c = W.rand_cfg(rng, scen=s, band=b, dir=d, elev=float(a), topo="custom", T=1,
                           pl=False, sf=True, los=los, bs=2 if lay == "platforms" else 1,
                           ut={"single": 1, "near": 3, "mixed": 3, "far": 2, "platforms": 2}[lay],
                           batch=4000 if tier == "quick" else 16000,
                           precision=rng.choice(("single", "double")))
            c["ut_arr"] = c["bs_arr"] = ANT
            c["lay"] = lay
            c["d"] = [round(rng.choice((0., rng.uniform(.1, 2), rng.uniform(1, 20), rng.uniform(10, 80))), 2) for _ in range(3)]
            c["reps"] = {"single": 2, "platforms": 4}.get(lay, 1)
            if lay == "platforms":
                c["d"][0] = round(rng.uniform(8, 40), 2)
            out.append(c)
    return out


def place(c):
    """Identical user positions in all examples."""
    t = W.custom_topology(c, np)
    B, U = c["batch"], c["ut"]
    p = t["ut_loc"][:1].copy()
    p[0, :, :2] = p[0, :1, :2]
    if c["lay"] in ("near", "mixed"):
        p[0, 1, 0] += c["d"][0]
        p[0, 2, 0] += c["d"][1] * .6
        p[0, 2, 1] += c["d"][1] * .8
    elif c["lay"] == "far":
        p[0, 1, 1] += 3e4
    elif c["lay"] == "platforms":
        p[0, 1, 0] += c["d"][0]
    p[0, :, 2] = [1.5, 20., 3.][:U]        # heights must not matter
    t["ut_loc"] = np.repeat(p, B, 0)
    t["bs_loc"] = np.repeat(t["bs_loc"][:1], B, 0)
    if c["bs"] > 1:
        t["bs_loc"][:, 1, :2] += 10.
    if c["precision"] == "single":
        # the distances are those of the positions the model can hold
        o = p[0, 0, :2].copy()
        for k in ("ut_loc", "bs_loc"):
            t[k][..., :2] -= o
            t[k] = t[k].astype(np.float32).astype(float)
    return t


def cap(c, st, j):
    if T.MAX[j] is None:
        return np.inf
    return (math.log10(T.MAX[j]) - T.lsp_mean(c, st)[j]) / T.lsp_std(c, st)[j]


def pair(m, key, x, y, rho, cx, cy, msg):
    n = len(x)
    if n < 300:
        return
    rho = float(np.clip(rho, -0.9999, 0.9999))
    if min(cx, cy) > 3.5:
        if key == "spatial correlation" and 2e-3 < 1 - rho < .3:
            # close users: the correlation is told by how little they differ
            v = float(np.mean((x - y) ** 2)) / (2 * (1 - rho))
            tol = Z * math.sqrt(2 / n) + 40 / n + 5e-3 + 1.5e-4 / (1 - rho)
            m.check(abs(v - 1) < tol, "increments", f"{msg}: squared difference {v:.3f} of the expected one "
                    f"(correlation {rho:.4f}, tolerance {tol:.3f}, n={n})")
        r = float(np.mean(x * y))
        tol = Z * math.sqrt((1 + rho * rho) / n) + 20 / n + 5e-3
        m.check(abs(r - rho) < tol, key, f"{msg}: correlation {r:.3f}, expected {rho:.3f} (tolerance {tol:.3f}, n={n})")
        return
    tx, ty = min(0., cx - .4), min(0., cy - .4)
    p = float(mvn.cdf([-tx, -ty], mean=[0, 0], cov=[[1, rho], [rho, 1]], allow_singular=True)
              if abs(rho) < .9995 else (0.5 * math.erfc(max(tx, ty) / math.sqrt(2)) if rho > 0 else 0.))
    q = float(np.mean((x > tx) & (y > ty)))
    tol = Z * math.sqrt(max(p * (1 - p), 1e-4) / n) + 20 / n + 5e-3
    m.check(abs(q - p) < tol, key, f"{msg}: orthant probability {q:.3f}, expected {p:.3f} "
            f"for correlation {rho:.2f} (tolerance {tol:.3f}, n={n})")


def run(c, m):
    ns = boot()
    tf = ns.tf
    rd = tf.float64 if c["precision"] == "double" else tf.float32
    t = place(c)
    topo = {k: tf.constant(v, tf.bool if k == "in_state" else rd) for k, v in t.items()}
    model, _, _ = W.make_model(ns, c)
    X, L = [], []
    # a past in other states must leave no trace
    model.set_topology(los=None if c["los"] is None else not c["los"], **topo)
    for _ in range(c["reps"]):
        with record() as tr:
            model.set_topology(los=c["los"], **topo)
        X.append(np.stack([getattr(tr.last("lsp"), f).astype(float) for f in LSP_FIELDS], -1))
        L.append(np_of(W.scen(model).los))
    raw, los = np.concatenate(X), np.concatenate(L)        # [N,S,U,7], [N,S,U]
    S, U = los.shape[1:]
    st_of = [True, False]
    x = np.full(raw.shape, np.nan)
    fin = {}
    for st in st_of:
        mu, sd = T.lsp_mean(c, st), T.lsp_std(c, st)
        fin[st] = [j for j in range(7) if np.isfinite(mu[j]) and sd[j] > 0]
        for j in fin[st]:
            with np.errstate(divide="ignore"):
                v = (np.log10(raw[..., j]) - mu[j]) / sd[j]
            x[..., j] = np.where(los == st, v, x[..., j])
    tag = (c["scen"], T.band(c["fc"]), c["dir"], T.nearest(c["elev"]), c["lay"])
    # unit variance for every user whatever its neighbours
    for st in st_of:
        for u in range(U):
            for b in range(S):
                sel = los[:, b, u] == st
                n = int(sel.sum())
                if n < 300:
                    continue
                for j in fin[st]:
                    if cap(c, st, j) > 3.5:
                        v = float(np.mean(x[sel, b, u, j] ** 2))
                        m.check(abs(v - 1) < Z * math.sqrt(2 / n) + 40 / n + 3e-3, "unit variance",
                                f"{T.LSP[j]} platform {b} user {u}: variance ratio {v:.3f}")
    if c["lay"] in ("single", "far", "platforms"):
        for st in st_of:
            R = T.corr(c, st)
            for u in range(U):
                for b in range(S):
                    sel = los[:, b, u] == st
                    for i, j in T.CORR:
                        if i in fin[st] and j in fin[st]:
                            pair(m, "cross correlation", x[sel, b, u, i], x[sel, b, u, j], R[i, j],
                                 cap(c, st, i), cap(c, st, j), f"{T.LSP[i]}-{T.LSP[j]} {'LOS' if st else 'NLOS'}")
                            m.seen(*tag, st, i, j)
    p = t["ut_loc"][0]
    for u in range(U):
        for v in range(u + 1, U):
            d = float(np.hypot(*(p[u, :2] - p[v, :2])))
            for a in st_of:
                for b in st_of:
                    D = T.corr_dist(c, a)
                    for q in range(S):
                        sel = (los[:, q, u] == a) & (los[:, q, v] == b)
                        # (of drops in which the other platforms see these users in other states, too)
                        for o, part in [("", sel)] + ([
                                (", the other platform sees the second in the other state", sel & (los[:, 1 - q, v] != b)),
                                (", the other platform sees both in the other state",
                                 sel & (los[:, 1 - q, u] != a) & (los[:, 1 - q, v] != b))] if S == 2 else []):
                            if part.sum() < 300:
                                continue
                            for j in range(7):
                                if j in fin[a] and j in fin[b]:
                                    pair(m, "spatial correlation" if a == b else "uncorrelated states",
                                         x[part, q, u, j], x[part, q, v, j], math.exp(-d / D[j]) if a == b else 0.,
                                         cap(c, a, j), cap(c, b, j),
                                         f"{T.LSP[j]} of users {d:.1f} m apart under platform {q}, LOS {a},{b}{o}")
                                    m.seen(*tag, a, b, j, round(math.exp(-d / D[j]), 1))
    # other examples and other platforms
    for u in range(U):
        for st in st_of:
            sel = (los[:-1, 0, u] == st) & (los[1:, 0, u] == st)
            for j in fin[st]:
                pair(m, "uncorrelated examples", x[:-1, 0, u, j][sel], x[1:, 0, u, j][sel], 0.,
                     cap(c, st, j), cap(c, st, j), f"{T.LSP[j]} of neighbouring examples")
    if S > 1:
        for a in st_of:
            for b in st_of:
                sel = (los[:, 0, 0] == a) & (los[:, 1, 0] == b)
                for j in set(fin[a]) & set(fin[b]):
                    pair(m, "uncorrelated platforms", x[sel, 0, 0, j], x[sel, 1, 0, j], 0.,
                         cap(c, a, j), cap(c, b, j), f"{T.LSP[j]} of two platforms, LOS {a},{b}")
    m.count("draws", raw.shape[0] * S * U)
    m.sample(cfg=W.brief(c), layout=c["lay"], d=c["d"])
