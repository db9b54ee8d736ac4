"""C14: ray coupling, cross-polarization and initial phases are random as specified.

The permutation coupling each angle's offsets is recovered from the recorded
rays by ranking the deviations within a cluster.
"""
import numpy as np

from rt import rayan as A, stats as S, tables as T, workload as W
from rt.boot import boot
from rt.recorder import np_of, record

RULE = ("one distinct case = (scenario, band, direction, tabulated angle, state, monitor: coupling "
        "of an angle / pair of angles / XPR / phase)")
MIN_EVENTS = {"permutation": 5000, "uniform coupling": 40, "independent angles": 40,
              "independent clusters": 20, "independent examples": 20, "xpr law": 40, "phase law": 40,
              "redrawn": 100,
              "used phases": 500, "no repeats": 5000}
ANT = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")
ANG = ("aoa", "aod", "zoa", "zod")


def cases(tier, rng):
    out = []
    combos = [(s, b, a) for s in W.SCEN for b in ("S", "Ka") for a in range(10, 91, 10)]
    off = rng.randrange(2)
    for i, (s, b, a) in enumerate(combos):
        if tier == "quick" and (i + i // 9 + off) % 2:
            continue
        c = W.rand_cfg(rng, scen=s, band=b, elev=float(a), topo="custom", T=1, pl=False, sf=True,
                       dir=rng.choice(("uplink", "uplink", "downlink")), ut=2, bs=rng.choice((1, 1, 2)),
                       always=True, precision="double", los=rng.choice((None, True, False)),
                       batch=150 if tier == "quick" else 400, height=W.rand_height(rng, False))
        c["ut_arr"] = c["bs_arr"] = ANT
        c["calls"] = 4 if tier == "quick" else 12
        c["kind"] = "law"
        out.append(c)
    for i in range(4 if tier == "quick" else 24):     # many links: none gets the draws of another
        c = W.rand_cfg(rng, topo="custom", T=1, pl=False, sf=True, dir=("uplink", "downlink")[i % 2], always=True,
                       precision="double", los=rng.choice((None, True, False)), height=W.rand_height(rng, False),
                       **rng.choice((dict(ut=40, bs=1, batch=2), dict(ut=2, bs=1, batch=40), dict(ut=18, bs=2, batch=3),
                                     dict(ut=1, bs=20, batch=2), dict(ut=33, bs=1, batch=1))))
        c["ut_arr"] = c["bs_arr"] = ANT
        c["kind"], c["calls"] = "repeats", 3
        out.append(c)
    return out


def rows_differ(m, x, msg):
    """Rows of continuous draws never coincide."""
    x = np.ascontiguousarray(x.reshape(-1, x.shape[-1]))
    n = len(np.unique(x, axis=0))
    m.check(n == len(x), "no repeats", f"{len(x) - n} of {len(x)} rows repeat others: {msg}", n=len(x))


def repeats(c, m):
    ns = boot()
    model, _, _, _ = W.build(ns, c)
    los = np_of(W.scen(model).los)
    with record() as tr:
        for _ in range(c["calls"]):
            model(1, 1e3)
    C = max(T.clusters(c, True), T.clusters(c, False))
    N = min(T.clusters(c, True), T.clusters(c, False))
    rays = tr.of("rays")
    X = np.stack([e.xpr.astype(float) for e in rays])[:, :, :, :, :N]
    if min(T.value(c, "sigmaXPR", st) for st in (True, False)) > 0:
        rows_differ(m, X, "XPR of the rays of a cluster")
    P = np.stack([e.phi.astype(float) for e in tr.of("cir")])
    rows_differ(m, P.reshape(P.shape[:-2] + (80,)), "initial phases of the rays of a cluster")
    for q in range(4):
        rows_differ(m, P[..., q], f"initial phase {q} of the rays of a cluster")
    # users of one example share their coupling, examples, clusters and calls do not
    tab = lambda n: np.where(los, T.value(c, n, True), T.value(c, n, False))
    mz = np.where(los, T.lsp_mean(c, True)[6], T.lsp_mean(c, False)[6])
    cs = dict(aoa=tab("cASA"), aod=tab("cASD"), zoa=tab("cZSA"), zod=.375 * 10.0**mz)
    for k in ANG:
        got = []
        for e in rays:
            r, ok = ranks(getattr(e, k).astype(float), np.radians(cs[k])[..., None] * np.ones(C), k[0] == "z")
            got.append(r[:, 0, 0][ok[:, 0, 0]])
        got = np.concatenate(got)
        if len(got):
            rows_differ(m, got, f"coupling of {k}")
    m.seen("repeats", c["scen"], c["dir"], c["batch"], c["ut"], c["bs"])
    m.sample(cfg=W.brief(c), calls=c["calls"])


def ranks(x, spread, zen):
    """Ranks of the ray deviations [..., 20] and where they are recoverable."""
    if zen:
        cen = x.mean(-1)
        d = x - cen[..., None]
    else:
        cen = A.az_centre(x)
        d = np.angle(np.exp(1j * (x - cen[..., None])))
    o = np.argsort(d, -1)
    srt = np.take_along_axis(d, o, -1)
    ok = (spread > 1e-8) & (np.abs(srt - spread[..., None] * A.OFFS).max(-1)
                            < .02 * np.maximum(spread, 1e-12))
    return np.argsort(o, -1), ok


def table(a, b):
    n = np.zeros((20, 20))
    np.add.at(n, (a.ravel(), b.ravel()), 1)
    return n


def rng_cfg(c):
    """The same link statistics seen by co-located V/H pairs at both ends, unrotated
    and without Faraday rotation: entry (i, j) of a path only carries initial phase
    number 2i+j of its rays."""
    d = dict(c, height=min(c["height"], 500e3), los=False, ut=2, bs=1, T=1,
             batch=max(40, c["batch"] // 3), pl=False, sf=False, heights=None)
    d["ut_arr"] = d["bs_arr"] = dict(kind="Antenna", pol="dual", ptype="VH", pattern="omni")
    return d


def used_phases(c, m, d):
    """The phases the coefficients carry: the four polarization entries of a path
    are circular and uncorrelated, also with each other's conjugate."""
    ns = boot()
    model, _, _ = W.make_model(ns, d)
    topo = W.custom_topology(d, np)
    for k in ("ut_orientations", "bs_orientations"):
        topo[k] = np.zeros_like(topo[k])
    model.set_topology(los=False, **{k: ns.tf.constant(v, ns.tf.bool if k == "in_state" else ns.tf.float64)
                                     for k, v in topo.items()})
    hs = []
    for _ in range(c["calls"]):
        h, _ = model(1, 1e3)
        hs.append(np_of(h)[..., 0])                 # [B, rx, 2, tx, 2, paths]
    h = np.concatenate(hs)
    x = [h[:, :, i, :, j].reshape(-1) for i in (0, 1) for j in (0, 1)]
    on = np.all([np.abs(v) > 0 for v in x], axis=0)
    # a path of one strong ray keeps its phase law after scaling to unit size
    x = [v[on] / np.abs(v[on]) for v in x]
    for i in range(4):
        for v, nm in ((x[i], "mean"), (x[i] ** 2, "square")):
            S.mean0(m, "used phases", v.real, np.sqrt(.5), f"{nm} of polarization entry {i}")
            S.mean0(m, "used phases", v.imag, np.sqrt(.5), f"{nm} of polarization entry {i}")
        for j in range(i):
            for v in (x[i] * np.conj(x[j]), x[i] * x[j]):
                S.mean0(m, "used phases", v.real, np.sqrt(.5), f"polarization entries {i} and {j}")
                S.mean0(m, "used phases", v.imag, np.sqrt(.5), f"polarization entries {i} and {j}")
    m.count("paths with used phases", int(on.sum()))


def run(c, m):
    if c["kind"] == "repeats":
        return repeats(c, m)
    ns = boot()
    model, topo, _, _ = W.build(ns, c)
    s = W.scen(model)
    with record() as tr:
        for _ in range(c["calls"]):
            model(1, 1e3)
    los = np_of(s.los)
    tab = lambda n: np.where(los, T.value(c, n, True), T.value(c, n, False))
    mz = np.where(los, T.lsp_mean(c, True)[6], T.lsp_mean(c, False)[6])
    cs = dict(aoa=tab("cASA"), aod=tab("cASD"), zoa=tab("cZSA"), zod=.375 * 10.0**mz)
    C = max(T.clusters(c, True), T.clusters(c, False))
    pos = np.broadcast_to(np.arange(20), los.shape + (C, 20))
    tag = (c["scen"], T.band(c["fc"]), c["dir"], T.nearest(c["elev"]))
    single, pairs, clus, exam, calls = {}, {}, {}, {}, {}
    prev = None
    acc = lambda d, k, t: d.__setitem__(k, d.get(k, 0) + t)
    rays = tr.of("rays")
    for e in rays:
        R = {}
        for k in ANG:
            x = getattr(e, k).astype(float)
            R[k] = ranks(x, np.radians(cs[k])[..., None] * np.ones(C), k[0] == "z")
            r, ok = R[k]
            # every cluster of a link that can be decoded uses every offset once
            m.check((np.sort(r[ok], -1) == np.arange(20)).all(), "permutation", n=int(ok.sum()))
            u = ok[:, :, 0]                          # users of one example share their coupling
            acc(single, k, table(pos[:, :, 0][u], r[:, :, 0][u]))
            if prev is not None:
                r2, ok2 = prev[k]
                f = u & ok2[:, :, 0]
                acc(calls, k, table(r[:, :, 0][f], r2[:, :, 0][f]))
                if f.any():
                    m.check((r[:, :, 0][f] != r2[:, :, 0][f]).any(-1).all(), "redrawn", f"coupling of {k}", n=int(f.sum()))
            for q in range(C):
                for q2 in range(q + 1, C):
                    f = u[:, :, q] & u[:, :, q2]
                    acc(clus, k, table(r[:, :, 0, q][f], r[:, :, 0, q2][f]))
                f = u[:-1, :, q] & u[1:, :, q]
                acc(exam, k, table(r[:-1, :, 0, q][f], r[1:, :, 0, q][f]))
            if los.shape[1] > 1:
                f = u[:, 0] & u[:, 1]
                acc(exam, k + " of two platforms", table(r[:, 0, 0][f], r[:, 1, 0][f]))
        for i, k in enumerate(ANG):
            for k2 in ANG[i + 1:]:
                f = R[k][1][:, :, 0] & R[k2][1][:, :, 0]
                acc(pairs, (k, k2), table(R[k][0][:, :, 0][f], R[k2][0][:, :, 0][f]))
        prev = R
    for k, t in single.items():
        S.chi2_uniform(m, "uniform coupling", t, f"ray index against offset of {k}")
        m.seen(*tag, c["los"], "coupling", k)
        m.count("rays ranked", t.sum())
    for name, d in (("independent angles", pairs), ("independent clusters", clus),
                    ("independent examples", exam), ("independent calls", calls)):
        for k, t in d.items():
            S.chi2_uniform(m, name, t, f"offsets of {k}")
            if np.sum(t):
                m.seen(*tag, name, k)
    # cross-polarization
    X = np.stack([e.xpr.astype(float) for e in rays])
    m.shape("shape", X[0], los.shape + (C, 20))
    m.check((X > 0).all() and np.isfinite(X).all(), "xpr positive", n=X.size)
    for st in (True, False):
        if not (los == st).any():
            continue
        N = T.clusters(c, st)
        z = (10 * np.log10(X[:, los == st][:, :, :N]) - T.value(c, "muXPR", st))
        sg = T.value(c, "sigmaXPR", st)
        nm = "LOS" if st else "NLOS"
        m.seen(*tag, st, "xpr")
        if sg == 0:
            m.close("xpr law", z, 0., atol=1e-6)
            continue
        z = z / sg
        S.ks(m, "xpr law", z, S.normal_cdf, nm)
        S.ratio1(m, "xpr law", z.ravel() ** 2, 2., "variance " + nm)
        for n2, a, b in (("rays", z[..., :-1], z[..., 1:]), ("clusters", z[..., :-1, :], z[..., 1:, :]),
                         ("links", z[:, :-1], z[:, 1:]), ("calls", z[:-1], z[1:])):
            S.corr0(m, "xpr independent", a.ravel(), b.ravel(), f"XPR of neighbouring {n2}, {nm}")
        if c["ut"] > 1:
            both = (los[:, :, 0] == st) & (los[:, :, 1] == st)
            lx = (10 * np.log10(X[:, :, :, :, :N]) - T.value(c, "muXPR", st)) / sg
            S.corr0(m, "xpr independent", lx[:, :, :, 0][:, both].ravel(), lx[:, :, :, 1][:, both].ravel(),
                    f"XPR of two users, {nm}")
    # initial phases
    P = np.stack([e.phi.astype(float) for e in tr.of("cir")])
    m.shape("shape", P[0].reshape((c["batch"], -1, C, 20, 4)), (c["batch"], c["bs"] * c["ut"], C, 20, 4))
    m.check((np.abs(P) <= 2 * np.pi + 1e-6).all() and np.ptp(P) <= 2 * np.pi * (1 + 1e-6), "phase law",
            "range wider than a circle")
    for k in range(4):
        S.ks(m, "phase law", np.mod(P[..., k], 2 * np.pi) / (2 * np.pi), lambda x: np.clip(x, 0, 1),
             f"initial phase {k}")
        m.seen(*tag, "phase", k)
    w = np.exp(1j * P)

    def indep(a, b, msg):
        for v in (a * np.conj(b), a * b):
            for q in (v.real, v.imag):
                S.mean0(m, "phase independent", q.ravel(), np.sqrt(.5), msg)
    for i in range(4):
        for j in range(i + 1, 4):
            indep(w[..., i], w[..., j], f"initial phases {i} and {j}")
    indep(w[:-1], w[1:], "phases of two calls")
    indep(w[:, :-1], w[:, 1:], "phases of two examples")
    for ax, nm in ((2, "transmitters"), (3, "receivers"), (4, "clusters"), (5, "rays")):
        if w.shape[ax] > 1:
            indep(np.take(w, range(w.shape[ax] - 1), ax), np.take(w, range(1, w.shape[ax]), ax),
                  f"phases of two {nm}")
    m.check((P[:-1] != P[1:]).mean() > .999, "redrawn", "initial phases reused", n=P.shape[0] - 1)
    m.check((X[:-1] != X[1:]).mean() > .999, "redrawn", "XPR reused", n=P.shape[0] - 1)
    m.count("phases", P.size)
    used_phases(c, m, rng_cfg(c))
    m.sample(cfg=W.brief(c), calls=c["calls"])
