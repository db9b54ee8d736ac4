"""C10: large-scale parameters follow their log-normal laws and hard limits.

One user per example (no spatial correlation) and large batches; every draw is
standardized with the tabulated law of its own link state, then tested for
mean, variance, quantiles (Kolmogorov distance) and limits.
"""
import math

import numpy as np

from rt import refmodel as R, tables as T, workload as W
from rt.boot import boot
from rt.recorder import LSP_FIELDS, np_of, record

RULE = "one distinct case = (scenario, band, direction, tabulated angle, state, parameter tested)"
MIN_EVENTS = {"law": 300, "limit": 100, "path loss shadowing": 50, "independent of the state mix": 20}
ANT = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")
Z = 6.5


def cases(tier, rng):
    out = []
    combos = [(s, b, d, a) for s in W.SCEN for b in ("S", "Ka") for d in ("downlink", "uplink")
              for a in range(10, 91, 10)]
    if tier == "quick":      # every (scenario, band, direction) at 3 of the 9 angles
        off = rng.randrange(3)
        combos = [x for i, x in enumerate(combos) if (i + i // 9 + off) % 3 == 0]
    for s, b, d, a in combos:
        c = W.rand_cfg(rng, scen=s, band=b, dir=d, elev=float(a), topo="custom", ut=1, bs=1,
                       batch=3000 if tier == "quick" else 12000, T=1, pl=True, sf=True,
                       los=None, precision=rng.choice(("single", "double")))
        c["ut_arr"] = c["bs_arr"] = ANT
        out.append(c)
    return out


def ks(x):
    """Kolmogorov distance of standardized x to N(0,1), times sqrt(n)."""
    x = np.sort(x)
    n = len(x)
    F = 0.5 * (1 + np.vectorize(math.erf)(x / math.sqrt(2)))
    i = np.arange(1, n + 1)
    return max(np.max(i / n - F), np.max(F - (i - 1) / n)) * math.sqrt(n)


def law(m, x, key, msg, cap=None):
    """x standardized; cap: standardized censoring point (draws above sit at it)."""
    n = len(x)
    if n < 60:
        return
    if cap is not None and cap < 5:
        p = 0.5 * math.erfc(cap / math.sqrt(2))
        k = int((x >= cap - 1e-4).sum())
        sd = math.sqrt(max(n * p * (1 - p), 1e-9))
        m.check(abs(k - n * p) <= Z * sd + 5, key, f"{msg}: {k} of {n} at the limit, expected {n * p:.1f}")
        lo = 0.5 * math.erfc((cap - 1e-3) / math.sqrt(2))
        y = np.where(x >= cap - 1e-4, np.nan, x)
        y = np.sort(y[np.isfinite(y)])
        if len(y) < 60:
            return
        F = 0.5 * (1 + np.vectorize(math.erf)(y / math.sqrt(2)))
        d = np.max(np.abs(F - np.arange(1, len(y) + 1) / n)) * math.sqrt(n)
        m.check(d < 4.0, key, f"{msg}: Kolmogorov statistic {d:.2f} below the limit (n={n})")
        return
    z1 = x.mean() * math.sqrt(n)
    z2 = (np.mean(x**2) - 1) * math.sqrt(n / 2)
    m.check(abs(z1) < Z, key, f"{msg}: mean off by {x.mean():.4f} standard deviations (z={z1:.1f}, n={n})")
    # a sum of squares has an exponential upper tail
    m.check(-Z < z2 < Z + Z**2 / math.sqrt(2 * n) + 1, key,
            f"{msg}: variance ratio {np.mean(x**2):.4f} (z={z2:.1f}, n={n})")
    d = ks(x)
    m.check(d < 4.0, key, f"{msg}: Kolmogorov statistic {d:.2f} (n={n})")


def run(c, m):
    ns = boot()
    for mode in ("drawn", "forced", "forced"):
        c2 = dict(c)
        if mode == "forced":
            c2["los"] = bool(m.notes["forced"] % 2)
            m.count("forced")
        with record() as tr:
            model, topo, _, _ = W.build(ns, c2)
        s = W.scen(model)
        e = tr.last("lsp")
        los = np_of(s.los)[:, 0, 0]
        if mode == "forced":
            m.check((los == c2["los"]).all(), "forced state")
        fspl = np_of(s.free_space_pathloss).astype(float)[:, 0, 0]
        basic = np_of(s.basic_pathloss).astype(float)[:, 0, 0]
        raw = np.stack([getattr(e, f).astype(float)[:, 0, 0] for f in LSP_FIELDS], -1)
        m.check((raw >= 0).all() and np.isfinite(raw).all(), "finite", n=raw.size)
        # limits
        for j, f in enumerate(LSP_FIELDS):
            if T.MAX[j] is not None:
                m.check((raw[:, j] <= T.MAX[j] * (1 + 1e-6)).all(), "limit", f"{f} exceeds {T.MAX[j]}")
        for state in (True, False):
            sel = los == state
            n = int(sel.sum())
            mean, std = T.lsp_mean(c, state), T.lsp_std(c, state)
            for j, f in enumerate(T.LSP):
                if n == 0:
                    continue
                msg = f"{f} {'LOS' if state else 'NLOS'} {mode}"
                if not np.isfinite(mean[j]):
                    m.check((raw[sel, j] == 0).all(), "law", msg + ": must be zero")
                    continue
                with np.errstate(divide="ignore"):
                    x = np.log10(raw[sel, j])
                if std[j] == 0:
                    m.close("law", x, mean[j], atol=1e-5, msg=msg)
                    continue
                cap = None if T.MAX[j] is None else (math.log10(T.MAX[j]) - mean[j]) / std[j]
                law(m, (x - mean[j]) / std[j], "law", msg, cap)
                m.seen(c["scen"], T.band(c["fc"]), c["dir"], T.nearest(c["elev"]), state, f)
                m.count("draws tested", n)
            if n:
                sg = T.value(c, "sigmaSF", state)
                x = basic[sel] - fspl[sel] - (0. if state else T.value(c, "CL", False))
                law(m, x / sg, "path loss shadowing", f"basic path loss {'LOS' if state else 'NLOS'} {mode}")
        # independent of the LSP shadow fading and of the neighbouring example
        for st in (True, False):
            sel = los == st
            if sel.sum() > 200:
                ds = (np.log10(raw[sel, 0]) - T.lsp_mean(c, st)[0]) / T.lsp_std(c, st)[0]
                r = (ds[1:] * ds[:-1]).mean() * math.sqrt(len(ds) - 1)
                m.check(abs(r) < Z, "independent of the state mix", f"examples are correlated, z={r:.1f}")
    m.sample(cfg=W.brief(c))
