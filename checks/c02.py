"""C02: coefficients = 3GPP ray superposition (recomputed in float64).

Half of the executions are whole models, the others drive the coefficients
generator alone (with and without sub-clusters) with synthetic rays: poles, seams,
extreme polarization ratios and Rician factors, empty clusters, equal delays.
"""
import types

import numpy as np

from rt import match, refmodel as R, workload as W
from rt.boot import boot, seed_all
from rt.recorder import np_of, record

RULE = ("one distinct case = (scenario, direction, band, LOS mix, Doppler on/off, "
        "satellite or HAPS, tx array kind/polarization/pattern, rx array "
        "kind/polarization/pattern, number of BS, time samples, precision)")
ASSUMPTIONS = ["single precision: the absolute LOS carrier phase is rounding noise "
               "and compared up to one phase per link; double compares it exactly",
               "paths whose delays agree to rounding are compared as a set"]
MIN_EVENTS = {"cir:path": 200, "cir:los": 5, "unobserved": 60, "cir:absent": 5, "alone:path": 500, "alone:los": 50}


def cases(tier, rng):
    n = {"quick": 64, "thorough": 700}[tier]
    out = []
    for i in range(n):
        c = W.rand_cfg(rng, precision="double" if i % 4 else "single",
                       height=W.rand_height(rng, sat_only=False),
                       bs=rng.choice((1, 1, 2)), topo="custom",
                       fs=rng.choice((1e4, 1e5, 30.72e6)))
        if i % 8 == 5:
            c["topo"], c["bs"] = "gen", 1
        c["heights"] = [c["height"], W.rand_height(rng, sat_only=False), 5.5e5, 7e5][:c["batch"]] \
            if c["topo"] == "custom" else None
        c["colocated"] = rng.random() < .2
        c["beneath"] = rng.random() < .2
        c["face"] = rng.random() < .4
        c["los"] = rng.choice((None, None, True, False))
        c["calls"] = 2
        out.append(c)
    for i in range(n):
        c = W.rand_cfg(rng, precision="double" if i % 4 else "single", T=rng.choice((1, 2, 5)),
                       fs=rng.choice((1e4, 1e5, 30.72e6)), bs=rng.choice((1, 2, 3)))
        c.update(kind="alone", sub=i % 3 > 0, clusters=rng.choice((2, 3, 4, 7, 12)) if i % 3 else rng.choice((1, 2, 5)),
                 hs=[W.rand_height(rng, False) for _ in range(c["batch"])], extreme=rng.random() < .5)
        out.append(c)
    return out


def alone(c, m):
    """The coefficients generator with synthetic rays and links."""
    ns = boot()
    tf = ns.tf
    r = np.random.RandomState(c["topo_seed"])
    double = c["precision"] == "double"
    rd = tf.float64 if double else tf.float32
    k = lambda x: tf.constant(x, rd)
    ul = c["dir"] == "uplink"
    B, C, M = c["batch"], c["clusters"], 20
    Tx, Rx = (c["ut"], c["bs"]) if ul else (c["bs"], c["ut"])
    txa, rxa = (c["ut_arr"], c["bs_arr"]) if ul else (c["bs_arr"], c["ut_arr"])
    L = (B, Tx, Rx)
    # (special directions lie on the rim of the aperture, where rounding decides)
    hard = c["extreme"] and "aperture" not in (txa["pattern"], rxa["pattern"])

    def some(x, values, share=.15):
        if hard:
            sel = r.rand(*x.shape) < share
            x = np.where(sel, r.choice(values, x.shape), x)
        return x
    az = lambda s: some(r.uniform(-np.pi, np.pi, s), (0., np.pi / 2, -np.pi / 2, np.pi, -np.pi))
    ze = lambda s: some(r.uniform(.02, np.pi - .02, s), (np.pi / 2, .02, np.pi - .02, 1e-6, np.pi - 1e-6))
    p = r.exponential(1., L + (C,))
    if hard and C > 2:           # clusters that do not exist; two always do
        z = r.rand(*p.shape) < .3
        z[..., :2] = False
        p = np.where(z, 0., p)
    p /= p.sum(-1, keepdims=True)
    d = r.exponential(1e-7, L + (C,)) * (r.rand(*L, 1) > .1)
    d[..., 0] = 0.
    d = np.sort(d, -1)
    if hard and C > 2:
        d[..., 2] = d[..., 1]
    xpr = 10 ** r.uniform(-1, 3, L + (C, M))
    xpr = some(xpr, (1e-3, 1e6, 1.))
    rays = ns.t.Rays(k(d), k(p), k(az(L + (C, M))), k(az(L + (C, M))), k(ze(L + (C, M))), k(ze(L + (C, M))), k(xpr))
    kf = some(10 ** r.uniform(-2, 3, L), (1e-6, 1e6, 1.))
    los = r.rand(*L) < .5
    dist = r.uniform(1e5, 4e6, L)
    ori = lambda n: some(r.uniform(-np.pi, np.pi, (B, n, 3)), (0., np.pi / 2, np.pi))
    U = c["ut"]
    vel = r.uniform(-1, 1, (B, U, 3)) * 50
    topo = ns.t.Topology(k(vel), "tx" if ul else "rx", k(az(L)), k(az(L)), k(ze(L)), k(ze(L)), tf.constant(los), k(dist),
                         k(ori(Tx)), k(ori(Rx)), k(np.array(c["hs"], float)), k(c["elev"]), c["doppler"])
    a = [W.make_array(ns, x, c["fc"], c["precision"]) for x in (txa, rxa)]
    gen = ns.t.ChannelCoefficientsGenerator(c["fc"], a[0], a[1], subclustering=c["sub"], precision=c["precision"])
    cds = r.uniform(0, 2e-8, L) * (r.rand(*L) > .1)
    with record() as tr:
        for _ in range(2):
            gen(c["T"], c["fs"], k(kf), rays, topo, *([k(cds)] if c["sub"] else []))
    for e in tr.of("cir"):
        match.cir(m, "alone", e, c["fc"], txa, rxa, double)
        m.close("alone:phases in range", abs(e.phi) <= 6.2832, True)
    m.seen("alone", c["sub"], C, c["dir"], c["doppler"], *[txa[q] for q in ("kind", "ptype", "pattern")],
           *[rxa[q] for q in ("kind", "ptype", "pattern")], c["T"], c["precision"], hard)


def run(c, m):
    if c.get("kind") == "alone":
        return alone(c, m)
    ns = boot()
    model, topo, ut, bs = W.build(ns, c)
    txa, rxa = (c["ut_arr"], c["bs_arr"]) if c["dir"] == "uplink" else (c["bs_arr"], c["ut_arr"])
    seed_all(c["seed"])
    plain = [np_of(x) for x in model(c["T"], c["fs"])]
    seed_all(c["seed"])
    with record() as tr:
        for k in range(c["calls"]):
            out = [np_of(x) for x in model(c["T"], c["fs"])]
            if k == 0:           # what is observed is what happens unobserved
                m.check(np.array_equal(plain[0], out[0]) and np.array_equal(plain[1], out[1]), "unobserved",
                        "the channel depends on whether intermediate results are requested")
    ev = tr.of("cir")
    m.need(len(ev) == c["calls"], "cir:calls", "one coefficients generation per call")
    for e in ev:
        match.snapshot(m, "inputs", e, c, W.scen(model), np_of)
        m.close("inputs:phases in range", abs(e.phi) <= 6.2832, True)
        match.cir(m, "cir", e, c["fc"], txa, rxa, c["precision"] == "double")
        lo = e.topology.los
        mix = "mixed" if lo.any() and not lo.all() else ("los" if lo.all() else "nlos")
        m.seen(c["scen"], c["dir"], "S" if c["fc"] < 1e10 else "Ka", mix, c["doppler"],
               c["height"] >= 6e5, *[txa[k] for k in ("kind", "ptype", "pattern")],
               *[rxa[k] for k in ("kind", "ptype", "pattern")], c["bs"], c["T"], c["precision"])
    m.sample(cfg=W.brief(c), first_path=abs(ev[0].h[0, 0, 0, 0]), delays=ev[0].delays[0, 0, 0])
