"""C13: ray angles follow the standard's angular model at both ends."""
import numpy as np

from rt import rayan as A, stats as S, tables as T, workload as W
from rt.boot import boot
from rt.recorder import np_of, record

RULE = ("one distinct case = (scenario, band, direction, tabulated angle, state, platform class, "
        "angle, cluster index)")
MIN_EVENTS = {"offsets aoa": 5000, "offsets aod": 5000, "offsets zoa": 5000, "offsets zod": 5000,
              "range": 5000, "LOS centred": 1000, "no departure scatter": 1000, "scatter": 100,
              "fair sign": 100, "independent clusters": 50,
              "scatter by K": 50}
ANT = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")


def cases(tier, rng):
    out = []
    i = 0
    for s in W.SCEN:
        for b in ("S", "Ka"):
            for a in range(10, 91, 10):
                c = W.rand_cfg(rng, scen=s, band=b, elev=float(a), topo="custom", T=1, pl=False, sf=True,
                               ut=1, bs=1, always=True, precision="double", los=None,
                               batch=1500 if tier == "quick" else 8000)
                if i % 3 == 1:                      # HAPS: departure scatter in uplink
                    c["dir"] = "uplink"
                    c["heights"] = [rng.uniform(8e3, 159.99e3)]
                elif i % 3 == 2:                    # around the limit, per example
                    c["dir"] = "uplink"
                    c["heights"] = [160e3, 159.99e3, 6e5, 2e4]
                c["ut_arr"] = c["bs_arr"] = ANT
                c["spread"] = 2e3
                out.append(c)
                i += 1
    n = 18 if tier == "quick" else 120              # structural monitors on anything
    for _ in range(n):
        c = W.rand_cfg(rng, batch=rng.choice((1, 3, 40)), ut=rng.choice((1, 4)), bs=1, always=True, T=1,
                       height=W.rand_height(rng, False))
        c["ut_arr"] = c["bs_arr"] = ANT
        c["structural"] = True
        out.append(c)
    return out


def run(c, m):
    ns = boot()
    model, topo, _, _ = W.build(ns, c)
    s = W.scen(model)
    with record() as tr:
        for _ in range(2):
            model(1, 1e3)
    double = c["precision"] == "double"
    los = np_of(s.los)
    hb = np.broadcast_to(np_of(s.bs_loc)[:, :, None, 2], los.shape).astype(float)
    sat = hb >= 160e3
    rad = lambda x: np.radians(np_of(x).astype(float))
    ref = dict(aoa=rad(s.los_aoa), aod=rad(s.los_aod), zoa=rad(s.los_zoa),
               zod=rad(s.los_zod) + np.radians(np.where(los, 0., np_of(s.zod_offset).astype(float))))
    tab = lambda n: np.where(los, T.value(c, n, True), T.value(c, n, False))
    with np.errstate(over="ignore"):
        mzsd = np.where(los, T.lsp_mean(c, True)[6], T.lsp_mean(c, False)[6])
        cs = dict(aoa=tab("cASA"), aod=tab("cASD"), zoa=tab("cZSA"), zod=.375 * 10.0**mzsd)
    ntab = np.where(los, T.clusters(c, True), T.clusters(c, False))
    eps = 1e-9 if double else 4e-5
    pool = {}
    for e in tr.of("rays"):
        C = e.powers.shape[-1]
        live = np.arange(C) < ntab[..., None]
        cen = {}
        for k in ("aoa", "aod", "zoa", "zod"):
            x = getattr(e, k).astype(float)
            m.shape("shape", x, los.shape + (C, 20))
            spread = np.radians(cs[k])[..., None] * np.ones(C)
            if k[0] == "a":
                m.check(((x > -np.pi - eps) & (x <= np.pi + eps)).all(), "range", k, n=x.size)
                cen[k] = A.az_centre(x)
                m.close("offsets " + k, A.az_offsets(x, cen[k])[live], (spread[..., None] * A.OFFS)[live],
                        atol=eps * 3, msg=f"{k} deviations within clusters")
            else:
                m.check(((x >= -eps) & (x <= np.pi + eps)).all(), "range", k, n=x.size)
                cc = A.zen_cos_centre(x, spread)
                m.check((np.abs(cc[live]) <= 1 + 1e-4).all(), "offsets " + k, "centre outside the sphere")
                th = np.arccos(np.clip(cc, -1, 1))
                want = np.sort(np.cos(th[..., None] + spread[..., None] * A.OFFS), -1)
                m.close("offsets " + k, np.sort(np.cos(x), -1)[live], want[live],
                        atol=5e-8 if double else 2e-3,
                        msg=f"{k} deviations within clusters")
                cen[k] = cc
        # first cluster of LOS links
        for k in ref:
            if los.any():
                f = los
                if k[0] == "a":
                    m.angle_close("LOS centred", cen[k][..., 0][f], ref[k][f], atol=eps * 10, period=2 * np.pi,
                                  msg=k)
                else:
                    m.close("LOS centred", cen[k][..., 0][f], np.cos(ref[k])[f], atol=eps * 10, msg=k)
            f = sat[..., None] & live
            if k in ("aod", "zod") and f.any():
                r = np.broadcast_to(ref[k][..., None], f.shape)
                if k == "aod":
                    m.angle_close("no departure scatter", cen[k][f], r[f], atol=eps * 10, period=2 * np.pi, msg=k)
                else:
                    m.close("no departure scatter", cen[k][f], np.cos(r)[f], atol=eps * 10, msg=k)
        if c.get("structural"):
            m.seen("structural", c["scen"], T.band(c["fc"]), c["dir"], T.nearest(c["elev"]), bool(sat.all()))
            continue
        # scatter of the other clusters
        L = e.lsp
        spr = dict(aoa=L.asa, aod=np.where(sat, 0, L.asd), zoa=L.zsa, zod=np.where(sat, 0, L.zsd))
        for k in ref:
            kind = "az" if k[0] == "a" else "ze"
            sp = spr[k].astype(float)
            mag = A.scatter(c, e, los, kind, sp)
            sig = np.radians(sp) / 7
            cf = (A.c_phi if kind == "az" else A.c_theta)(c, los, A.k_db(e))
            for st in (True, False):
                for q in range(1 if st else 0, T.clusters(c, st)):
                    f = (los == st) & (sp > 0) & (np.abs(cf) > 2e-2)
                    if f.sum() < 50:
                        continue
                    r0 = ref[k][f]
                    mags, sg = [mag[..., q][f]], sig[f]
                    if st:
                        mags.append(mag[..., 0][f])
                        sg = sg * np.sqrt(2)
                    if kind == "az":
                        dev = np.angle(np.exp(1j * (cen[k][..., q][f] - r0)))
                        fun = lambda x: 2 * np.sin(x / 2) ** 2
                        got = fun(dev)
                        sn = np.sin(dev)
                        _, s2 = A.expect(np.sin, mags, sg)
                        pool.setdefault(("sign", k, st, q), []).append(sn / np.sqrt(s2))
                    else:
                        fun = lambda x: (np.cos(r0[:, None] + x) - np.cos(r0)[:, None]) ** 2
                        got = (cen[k][..., q][f] - np.cos(r0)) ** 2
                        e1, e2 = A.expect(lambda x: np.cos(r0[:, None] + x) - np.cos(r0)[:, None], mags, sg)
                        sd = np.sqrt(np.maximum(e2 - e1**2, 0))
                        y = np.where(sd > 1e-10, (cen[k][..., q][f] - np.cos(r0) - e1) / np.maximum(sd, 1e-10), 0.)
                        pool.setdefault(("sign", k, st, q), []).append(y)
                    e1, e2 = A.expect(fun, mags, sg)
                    good = e1 > 1e-18
                    pool.setdefault(("var", k, st, q), []).append(
                        np.stack([got[good] / e1[good], e2[good] / e1[good] ** 2 - 1,
                                  np.broadcast_to(A.k_db(e), los.shape)[f][good] * np.ones(good.sum())], -1))
    for (what, k, st, q), lst in pool.items():
        x = np.concatenate(lst)
        msg = f"{k} of cluster {q}, {'LOS' if st else 'NLOS'}"
        if what == "var":
            S.ratio1(m, "scatter", x[:, 0], float(x[:, 1].mean()), "squared deviation, " + msg)
            if st:              # whichever way round the direct and the scattered power are
                for part, on in (("below", x[:, 2] < 0), ("above", x[:, 2] >= 12.)):
                    if on.sum() >= 100:
                        S.ratio1(m, "scatter by K", x[on, 0], float(x[on, 1].mean()),
                                 f"squared deviation, {msg}, K factor {part}")
            m.count("cluster angles tested", len(x))
            m.seen(c["scen"], T.band(c["fc"]), c["dir"], T.nearest(c["elev"]), st,
                   "haps" if hb.min() < 160e3 else "sat", k, q)
        else:
            S.mean0(m, "fair sign", x, 1.0, msg)
            if not st:
                for k2 in ref:
                    for q2 in range(q + (k2 <= k), T.clusters(c, st)):
                        o = pool.get((what, k2, st, q2))
                        if o is not None and (k2, q2) != (k, q):
                            o = np.concatenate(o)
                            if len(o) == len(x):
                                S.corr0(m, "independent clusters", x, o, f"{msg} and {k2} of cluster {q2}")
    m.sample(cfg=W.brief(c), links=int(los.size))
