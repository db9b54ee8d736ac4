"""C12: cluster delays and powers form a valid normalized power-delay profile."""
import numpy as np

from rt import stats as S, tables as T, workload as W
from rt.boot import boot
from rt.recorder import np_of, record

RULE = "one distinct case = (scenario, band, direction, tabulated angle, states, cluster index tested)"
MIN_EVENTS = {"sorted": 1000, "first at zero": 1000, "power sum": 1000, "absent clusters": 1000,
              "delay law": 80, "power law": 80, "delay independence": 40, "link independence": 200, "mixed states": 40}
ASSUMPTIONS = ["Rician factors below -60 dB (probability below 3e-6 per link) are outside the domain of "
               "the standard's delay-compression polynomial, which turns negative there"]
ANT = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")


def scale(kdb):
    return .7705 - .0433 * kdb + .0002 * kdb**2 + 1.7e-5 * kdb**3


def cases(tier, rng):
    out = []
    for s in W.SCEN:
        for b in ("S", "Ka"):
            for a in range(10, 91, 10):
                c = W.rand_cfg(rng, scen=s, band=b, elev=float(a), topo="custom", T=1, pl=False, sf=True,
                               batch=900 if tier == "quick" else 4000, ut=2, bs=rng.choice((1, 1, 2)),
                               los=rng.choice((None, None, True, False)), always=True,
                               precision=rng.choice(("double", "double", "single")))
                c["ut_arr"] = c["bs_arr"] = ANT
                c["spread"] = 1e5
                c["calls"] = 2 if tier == "quick" else 4
                c["mixed"] = False
                out.append(c)
            # many links of mixed states: each keeps the entries of its own state
            for a in rng.sample(range(10, 60, 10), 2 if tier == "quick" else 5):
                c = W.rand_cfg(rng, scen=s, band=b, elev=float(a), topo="custom", T=1, pl=False, sf=True, batch=2500,
                               ut=4, bs=1, los=None, always=True, precision="double")
                c["ut_arr"] = c["bs_arr"] = ANT
                c["spread"], c["calls"], c["mixed"] = 1e5, 3, True
                out.append(c)
    return out


def run(c, m):
    ns = boot()
    double = c["precision"] == "double"
    model, topo, _, _ = W.build(ns, c)
    los = np_of(W.scen(model).los)
    with record() as tr:
        for _ in range(c["calls"]):
            model(1, 1e3)
    nl = {st: T.clusters(c, st) for st in (True, False)}
    gaps, mixed = {}, {}
    res = {}
    pairs = {"examples": [], "users": [], "platforms": [], "calls": []}
    last = {}
    for e in tr.of("rays"):
        d, p = e.delays.astype(float), e.powers.astype(float)
        C = max(nl.values())
        m.shape("shape", d, los.shape + (C,))
        m.shape("shape", p, los.shape + (C,))
        ok = (10 * np.log10(e.lsp.k_factor.astype(float)) > -60) | ~los
        m.count("links outside the domain of the delay polynomial", (~ok).sum())
        m.check((np.diff(d, axis=-1)[ok] >= 0).all(), "sorted", n=los.size)
        m.check((d[..., 0] == 0).all(), "first at zero", n=los.size)
        m.check((p >= 0).all() and np.isfinite(p).all(), "non-negative powers", n=p.size)
        m.close("power sum", p.sum(-1), 1.0, rtol=1e-12 if double else 2e-6)
        for st in (True, False):
            N = nl[st]
            sel = (los == st) & ok
            if not sel.any():
                continue
            P, D = p[sel], d[sel]
            m.check((P[:, N:] == 0).all(), "absent clusters", "power beyond the tabulated number", n=len(P))
            m.check((P[:, :N] > 0).all(), "present clusters", n=len(P))
            ds = e.lsp.ds.astype(float)[sel]
            D = D[:, :N].copy()
            if st:
                D = D * scale(10 * np.log10(e.lsp.k_factor.astype(float)[sel]))[:, None]
            rt = T.value(c, "rTau", st)
            x = D / (rt * ds)[:, None]
            for k in range(1, N):
                gaps.setdefault((st, k), []).append((x[:, k] - x[:, k - 1]) * (N - k))
            r = -10 * np.log10(P[:, :N]) - 10 / np.log(10) * x * (rt - 1)
            res.setdefault(st, []).append((r, x))
            if c["mixed"]:          # by the state of the neighbouring user and of the first one
                for nm, nb in (("first user", los[:, :, :1]), ("next user", np.roll(los, 1, 2)),
                               ("next example", np.roll(los, 1, 0))):
                    o = np.broadcast_to(nb, los.shape)[sel] != st
                    mixed.setdefault((st, nm), []).append(
                        (np.diff(x[o], axis=1, prepend=0)[:, 1:] * (N - np.arange(1, N)), r[o].var(axis=1, ddof=1)))
            # every link its own: differences of shadowing and first gap, normalized
            if N > 2:
                n = np.full(los.shape + (3,), np.nan)
                z = T.value(c, "zeta", st)
                y = (r[:, 1] - r[:, 0]) / z / 2**.5 if z else 0 * r[:, 0]
                w = (r[:, 2] - .5 * r[:, 1] - .5 * r[:, 0]) / z / 1.5**.5 if z else 0 * r[:, 0]
                n[sel] = np.stack([y, w, (x[:, 1] - x[:, 0]) * (N - 1) - 1], -1)
                for k, (a, b) in dict(examples=(n[:-1], n[1:]), users=(n[:, :, :-1], n[:, :, 1:]),
                                      platforms=(n[:, :-1], n[:, 1:])).items():
                    pairs[k].append(np.stack([a.reshape(-1, 3), b.reshape(-1, 3)]))
                if st in last:
                    pairs["calls"].append(np.stack([last[st].reshape(-1, 3), n.reshape(-1, 3)]))
                last[st] = n
    for (st, nm), lst in mixed.items():
        g, v = (np.concatenate(q) for q in zip(*lst))
        msg = f"{'LOS' if st else 'NLOS'} links with a {nm} in the other state"
        if g.shape[1]:
            S.ratio1(m, "mixed states", g.ravel(), 1.0, "gaps of " + msg)
            if T.value(c, "zeta", st):
                S.ratio1(m, "mixed states", v / T.value(c, "zeta", st)**2, 2.0 / g.shape[1], "shadowing of " + msg)
    for (st, k), g in gaps.items():
        g = np.concatenate(g)
        msg = f"gap {k} {'LOS' if st else 'NLOS'}"
        S.ks(m, "delay law", g, S.exp_cdf, msg, 2e-3 if not double else 1e-4)
        S.ratio1(m, "delay law", g, 1.0, msg)
        m.seen(c["scen"], T.band(c["fc"]), c["dir"], T.nearest(c["elev"]), st, k)
        m.count("gaps tested", len(g))
        if k > 1:
            o = np.concatenate(gaps[(st, 1)])
            S.corr0(m, "delay independence", g - 1, o - 1, msg + " and gap 1")
    for st, lst in res.items():
        r = np.concatenate([a for a, _ in lst])
        x = np.concatenate([b for _, b in lst])
        N = nl[st]
        z = T.value(c, "zeta", st)
        if N < 2 or len(r) < 100:
            continue
        state = "LOS" if st else "NLOS"
        for k in range(1, N):
            y = (r[:, k] - r[:, 0]) / (np.sqrt(2) * z)
            S.ks(m, "power law", y, S.normal_cdf, f"shadowing of cluster {k} against 0, {state}", 2e-3)
            S.mean0(m, "power law", y, 1.0, f"shadowing of cluster {k} against 0, {state}")
            S.corr0(m, "power law", y, (x[:, k] - x[:, :N].mean(1)), "shadowing and delay",
                    sy=max(float(np.std(x[:, k] - x[:, :N].mean(1))), 1e-9))
        v = r.var(axis=1, ddof=1) / z**2
        S.ratio1(m, "power law", v, 2.0 / (N - 1), f"deviation of the cluster shadowing, {state}")
        if N > 2:
            y = (r[:, 1] - r[:, 0]) / z
            w = (r[:, 2] - .5 * r[:, 1] - .5 * r[:, 0]) / z
            S.corr0(m, "power law", y, w, f"shadowing of clusters 0, 1 and 2, {state}", sx=2**.5, sy=1.5**.5)
    for k, lst in pairs.items():
        a, b = np.concatenate(lst, 1) if lst else np.zeros((2, 0, 3))
        ok = np.isfinite(a[:, 0]) & np.isfinite(b[:, 0])
        if ok.sum() < 100:
            continue
        for q, name in enumerate(("shadowing", "shadowing", "delays")):
            if np.abs(a[ok, q]).max() > 0:
                S.corr0(m, "link independence", a[ok, q], b[ok, q], f"{name} of different {k}")
    # different examples and users draw their own profiles
    for e in tr.of("rays")[:1]:
        for x in (e.delays[:-1, 0, 0, 1] != e.delays[1:, 0, 0, 1], e.delays[:, 0, 0, 1] != e.delays[:, 0, 1, 1]):
            m.check(x.mean() > .99, "own profile", "identical delays in two links", n=len(x))
    m.sample(cfg=W.brief(c))
