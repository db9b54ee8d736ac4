"""C25: the received power equals the link budget on average.

Oracle: conservation. Given the recorded cluster powers, K-factors and
polarization ratios, the mean over the random phases of |coefficient|^2 is
known exactly for isotropic elements; the ratio of observed to expected power
is averaged over many links and draws, per path, per link, per time sample and
per group, and must be one within sampling error (6.8 standard deviations).
"""
import math

import numpy as np

from rt import refmodel as R, stats as S, tables as T, workload as W
from rt.boot import boot
from rt.recorder import np_of, record

RULE = "one distinct case = (scenario, direction, band, state, polarization, satellite or HAPS, budget terms, time grid)"
MIN_EVENTS = {"link power": 200, "path power": 500, "time samples": 200, "both polarizations": 40, "budget": 20,
              "pooled": 10, "first path": 20}


def cases(tier, rng):
    out = []
    k = 1 if tier == "quick" else 8
    combos = [(s, d, l) for s in W.SCEN for d in ("downlink", "uplink") for l in (True, False, None)]
    for i, (s, d, los) in enumerate(combos * (2 * k)):
        c = W.rand_cfg(rng, scen=s, dir=d, los=los, topo="custom", band=("S", "Ka")[(i // len(combos) + i) % 2],
                       batch=24, ut=5, T=rng.choice((2, 3)), fs=rng.choice((1e2, 1e4, 30.72e6)),
                       height=W.rand_height(rng, rng.random() < .5), bs=1, always=rng.random() < .5,
                       precision=rng.choice(("single", "double")))
        dual = i % 2 == 1
        for a in ("ut_arr", "bs_arr"):
            c[a] = dict(kind="Antenna", pol="dual" if dual else "single",
                        ptype=rng.choice(("VH", "cross")) if dual else "V", pattern="omni")
        c["spread"] = 2e4
        out.append(dict(cfg=c, calls=14 if tier == "quick" else 30))
    return out


def expected(e, fc, dual, sat):
    """Mean power of every path and of its link, given everything but the phases.

    Between V elements of upright arrays only the rotation of the ionosphere
    mixes the polarizations; over both polarizations at both ends it cancels.
    """
    psi = math.radians(108 / (fc / 1e9) ** 2)
    w = np.where(sat, math.cos(psi) ** 2, 1.)[:, None, None]
    x = 1 / e.rays.xpr.astype(float)                              # [B,tx,rx,C,20]
    wr = w[..., None, None]
    g = 2 * (1 + x) if dual else wr + (1 - wr) * x
    g = g / 20 * e.rays.powers.astype(float)[..., None]
    cds = np.asarray(e.c_ds, float)
    tau = e.rays.delays.astype(float)
    order = np.argsort(-e.rays.powers.astype(float), axis=-1, kind="stable")
    P, D = [], []
    for i in range(tau.shape[-1]):
        o = order[..., i:i + 1]
        gi = np.take_along_axis(g, o[..., None], 3)[..., 0, :]
        di = np.take_along_axis(tau, o, 3)[..., 0]
        if i < 2:
            for idx, off in zip(R.SUB_CLUSTERS, R.SUB_OFFSETS):
                P.append(gi[..., list(idx)].sum(-1))
                D.append(di + off * cds)
        else:
            P.append(gi.sum(-1))
            D.append(di)
    P, D = np.stack(P, -1), np.stack(D, -1)
    o = np.argsort(D, -1, kind="stable")
    P = np.take_along_axis(P, o, -1)
    K = np.where(e.topology.los, np.asarray(e.k_factor, float), 0.)
    P = P / (1 + K)[..., None]
    direct = K / (1 + K) * (2. if dual else np.broadcast_to(w, K.shape))
    P[..., 0] += direct
    return P, direct


def run(c, m):
    ns = boot()
    cfg = c["cfg"]
    dual = cfg["ut_arr"]["pol"] == "dual"
    topo = W.custom_topology(cfg, np)
    if not dual:                         # upright arrays: V elements see V only
        for k in ("ut_orientations", "bs_orientations"):
            topo[k][...] = 0.
    rd = ns.tf.float64 if cfg["precision"] == "double" else ns.tf.float32
    topo = {k: ns.tf.constant(v, ns.tf.bool if k == "in_state" else rd) for k, v in topo.items()}
    model, _, _ = W.make_model(ns, cfg)
    q_link, q_path, q_time, q_first, q_state, share = [], [], [], [], [], []
    ul = cfg["dir"] == "uplink"
    for call in range(c["calls"]):
        with record() as tr:
            if call == 0 or call == c["calls"] // 2:
                model.set_topology(los=cfg["los"], **topo)
            h, _ = model(cfg["T"], cfg["fs"])
        e, lsp = tr.last("cir"), tr.last("rays").lsp
        s = W.scen(model)
        sat = np_of(s.bs_loc)[:, 0, 2] >= 600e3
        P, direct = expected(e, cfg["fc"], dual, sat)
        gain = np.ones(np_of(s.los).shape)
        if cfg["pl"]:
            db = sum(np_of(v).astype(float) for v in (s.basic_pathloss, s.gas_pathloss, s.scintillation_pathloss,
                                                      s.entry_pathloss))
            gain = gain * 10 ** (-np.broadcast_to(db, gain.shape) / 10)
            if not cfg["sf"]:
                fs = R.fspl(cfg["fc"], R.slant_range(np_of(s.bs_loc)[:, :, 2].astype(float), cfg["elev"]))[:, :, None]
                lo = fs + T.per_link(cfg, "CL", np_of(s.los)) + R.gas_interval(cfg["fc"], cfg["elev"])[0] + \
                    R.scintillation(cfg["fc"], cfg["elev"])
                m.close("budget", db + 0 * lo, lo, atol=.02, rtol=.002, msg="loss the power is measured against")
        if cfg["sf"]:
            gain = gain * lsp.sf.astype(float)
        if not cfg["pl"]:
            m.ev["budget"] += 1
        gain = np.swapaxes(gain, 1, 2) if ul else gain
        h = np.transpose(np_of(h).astype(complex), (0, 3, 1, 5, 6, 2, 4))           # B,tx,rx,P,T,a,a
        p = (np.abs(h) ** 2).sum((-1, -2)) / gain[..., None, None]                  # B,tx,rx,P,T
        n = (e.rays.powers > 0).sum(-1) + 4
        real = np.arange(P.shape[-1]) < n[..., None]
        m.check((p[~real] == 0).all(), "path power", "power in paths that do not exist")
        live = real & (P > 1e-7)
        q_path.append((p / np.where(live, P, 1)[..., None])[live])
        which = np.broadcast_to(np.arange(P.shape[-1]), P.shape)[live]
        share.append(which)
        q_link.append((p.sum(3) / P.sum(-1)[..., None]).reshape(-1, cfg["T"]))
        V = (P ** 2).sum(-1) / P.sum(-1) ** 2
        q_state.append(np.stack([np.asarray(e.topology.los, float).ravel(), V.ravel()], -1))
        f = np.asarray(e.topology.los, bool) & (direct > .3)
        q_first.append((p[..., 0, :].mean(-1) / P[..., 0])[f])
    w = f"{cfg['scen']} {cfg['dir']} fc {cfg['fc']:.4g} los {cfg['los']} {'dual' if dual else 'V'}"
    path, link, st, which = (np.concatenate(v) for v in (q_path, q_link, q_state, share))
    key = "both polarizations" if dual else "link power"
    for t in range(cfg["T"]):
        S.ratio1(m, "path power", path[:, t], 1., f"{w}: every path, time sample {t}")
        S.ratio1(m, key, link[:, t], float(st[:, 1].mean()), f"{w}: links, time sample {t}")
        m.ev["time samples"] += len(link) // 100
        for v in (0, 1):
            g = st[:, 0] == v
            S.ratio1(m, key, link[g, t], float(st[g, 1].mean()) if g.any() else 1.,
                     f"{w}: {'LOS' if v else 'NLOS'} links, time sample {t}")
    for i in np.unique(which):
        S.ratio1(m, "path power", path[which == i].mean(-1), 1., f"{w}: path number {i}")
    m.ev["link power"] += len(link) // 50
    m.ev["path power"] += len(path) // 50
    m.ev["both polarizations" if dual else "link power"] += 2
    first = np.concatenate(q_first)
    S.ratio1(m, "first path", first, 1., f"{w}: path with the line of sight")
    # the power does not depend on the time sample
    d = path[:, -1] - path[:, 0]
    if d.std() > 1e-9:
        m.check(abs(d.mean()) < 7 * d.std() / math.sqrt(len(d)) + 60 / len(d), "time samples", f"{w}: power drifts by {d.mean():.4f}")
    m.add("path|all", [len(path), path.mean(-1).sum(), len(path)])
    m.add("link|all", [len(link), link.mean(-1).sum(), st[:, 1].sum()])
    for k in (cfg["dir"], cfg["scen"], T.band(cfg["fc"]), "LOS" if cfg["los"] else ("NLOS" if cfg["los"] is False else "mixed"),
              "dual" if dual else "V", "path loss" if cfg["pl"] else "no path loss", "shadowing" if cfg["sf"] else "none",
              "satellite" if cfg["height"] >= 6e5 else "HAPS"):
        m.add("path|" + k, [len(path), path.mean(-1).sum(), len(path)])
        m.add("link|" + k, [len(link), link.mean(-1).sum(), st[:, 1].sum()])
    m.count("paths measured", path.size)
    m.count("links measured", link.size)
    m.seen(cfg["scen"], cfg["dir"], T.band(cfg["fc"]), cfg["los"], dual, cfg["height"] >= 6e5, cfg["pl"], cfg["sf"], cfg["fs"])
    m.sample(cfg=W.brief(cfg), mean_path=float(path.mean()), mean_link=float(link.mean()), paths=len(path))


def finish(m, tier):
    """All cases together: biases far below one case's sampling error."""
    for k in sorted(m.acc):
        n, s, v = (float(x) for x in m.acc[k])
        if n > 1000:
            tol = 6.8 * math.sqrt(v) / n + 60 / n
            m.check(abs(s / n - 1) < tol, "pooled", f"{k}: mean power ratio {s / n:.5f} over {n:.0f}, expected 1 +- {tol:.5f}")
