"""C01: every supported configuration yields a well-formed finite channel."""
import numpy as np

from rt import tables as T, workload as W
from rt.boot import boot
from rt.recorder import np_of, record

RULE = ("one distinct case = (scenario, direction, band, nearest table angle, height "
        "class, arrays, LOS request, topology hazards, users, stations, precision)")
ASSUMPTIONS = ["outdoor users only: the repository states that indoor users are not supported"]
MIN_EVENTS = {"finite": 1000, "absent": 20, "live": 20}


def cases(tier, rng):
    n = {"quick": 110, "thorough": 1400}[tier]
    out = []
    for i in range(n):
        c = W.rand_cfg(rng, height=W.rand_height(rng, sat_only=False),
                       precision=rng.choice(("single", "single", "double")),
                       bs=rng.choice((1, 1, 1, 2)), batch=rng.choice((1, 1, 2, 3, 5)),
                       ut=rng.choice((1, 1, 2, 3, 6)), T=rng.choice((1, 1, 2, 7, 14)),
                       always=rng.random() < .25, elev=W.rand_elev(rng))
        if c["topo"] == "gen":
            c["bs"] = 1
        c["heights"] = [c["height"], W.rand_height(rng), 2e4, 6e5, 1.2e6][:c["batch"]] \
            if c["topo"] == "custom" and rng.random() < .5 else None
        for h in ("colocated", "beneath", "face"):
            c[h] = rng.random() < .25
        c["spread"] = rng.choice((0.0, 1e-3, 1.0, 300.0, 5e4))
        c["foo"] = rng.random() < .2
        if i % 3 == 0:       # sweep the corners systematically
            c["scen"] = W.SCEN[(i // 3) % 3]
            c["elev"] = float((10, 20, 30, 40, 50, 60, 70, 80, 90)[(i // 9) % 9])
        out.append(c)
    return out


def run(c, m):
    ns = boot()
    model, topo, ut, bs = W.build(ns, c)
    double = c["precision"] == "double"
    rx, tx = (("ut", "bs") if c["dir"] == "downlink" else ("bs", "ut"))
    num = dict(ut=c["ut"], bs=c["bs"])
    ant = dict(ut=W.num_ant(c["ut_arr"]), bs=W.num_ant(c["bs_arr"]))
    P = max(T.clusters(c, True), T.clusters(c, False)) + 4
    for rep in range(2):
        with record() as tr:
            a, tau = model(77, c["T"], c["fs"]) if c["foo"] and rep else model(c["T"], c["fs"])
        m.check(a.dtype == (ns.tf.complex128 if double else ns.tf.complex64), "dtype")
        m.check(tau.dtype == (ns.tf.float64 if double else ns.tf.float32), "dtype")
        a, tau = np_of(a), np_of(tau)
        m.shape("shape h", a, (c["batch"], num[rx], ant[rx], num[tx], ant[tx], P, c["T"]))
        m.shape("shape tau", tau, (c["batch"], num[rx], num[tx], P))
        m.check(np.isfinite(a).all(), "finite", "non-finite coefficients", n=a.size)
        m.check(np.isfinite(tau).all(), "finite", "non-finite delays", n=tau.size)
        los = np_of(W.scen(model).los)
        kf = tr.last("rays").lsp.k_factor
        ok = (kf > 1e-6) | ~los         # see C12: domain of the delay polynomial
        ok = np.swapaxes(ok, 1, 2) if rx == "ut" else ok
        m.check((tau >= 0)[ok].all(), "non-negative delays")
        m.check((np.diff(tau, axis=-1) >= 0)[ok].all(), "sorted delays")
        los = los if rx == "bs" else np.swapaxes(los, 1, 2)
        if c["los"] is not None:
            m.check((los == c["los"]).all(), "requested LOS state")
        for b, r, t in np.ndindex(*los.shape):
            n = T.clusters(c, bool(los[b, r, t])) + 4
            p = np.abs(a[b, r, :, t]).max(axis=(0, 1, 3))
            m.check((p[n:] == 0).all(), "absent", "paths beyond the state's clusters carry power",
                    n=P - n, powers=p, clusters=n - 4)
            pats = (c["ut_arr"]["pattern"], c["bs_arr"]["pattern"])
            if "aperture" not in pats:
                m.check(p.max() > 0, "live", "link without power")
                # a real path may fade but not vanish exactly
                m.check((p[:n] > 0).all(), "live", "a path of the state has no power",
                        powers=p, clusters=n - 4)
    m.seen(c["scen"], c["dir"], T.band(c["fc"]), T.nearest(c["elev"]),
           "sat" if c["height"] >= 6e5 else "haps", c["ut_arr"]["kind"], c["ut_arr"]["ptype"],
           c["bs_arr"]["kind"], c["bs_arr"]["pattern"], c["los"], c["colocated"],
           c["beneath"], c["ut"], c["bs"], c["precision"])
    m.sample(cfg=W.brief(c), shape=list(a.shape))
