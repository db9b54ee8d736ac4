"""C15: uplink and downlink describe the same propagation with ends swapped."""
import numpy as np

from rt import match, tables as T, workload as W
from rt.boot import boot
from rt.recorder import np_of, record

RULE = ("one distinct case = (scenario, band, direction, batch, users, stations, antennas of both "
        "ends, states, policy, flags)")
MIN_EVENTS = {"attached": 1000, "output": 100, "coefficients:path": 500, "same in both directions": 500,
              "user keeps its state": 100}
SAME = ("distance_2d", "distance_3d", "los_aod", "los_aoa", "los_zod", "los_zoa",
        "free_space_pathloss", "gas_pathloss", "scintillation_pathloss", "entry_pathloss",
        "matrix_ut_distance_2d")


def cases(tier, rng):
    n = {"quick": 70, "thorough": 900}[tier]
    out = []
    for i in range(n):
        B = rng.choice((1, 2, 3))
        U = rng.choice((B, 2, 3, 4, 5))             # equal sizes hide axis mix-ups, unequal ones crash
        c = W.rand_cfg(rng, topo=rng.choice(("custom", "custom", "gen")), batch=B, ut=U,
                       bs=rng.choice((1, 1, 2)), T=rng.choice((1, 3)), fs=1e5,
                       los=rng.choice((None, None, True, False)), height=W.rand_height(rng, False),
                       always=rng.random() < .3, precision=rng.choice(("single", "double")))
        if c["topo"] == "gen":
            c["bs"] = 1
        c["spread"] = rng.choice((300., 3e4))
        out.append(c)
    for i in range(max(8, n // 8)):         # links of one user in different states, with different tables
        c = W.rand_cfg(rng, topo="custom", batch=rng.choice((1, 2)), ut=rng.choice((2, 3, 4)), bs=rng.choice((2, 3)),
                       T=1, fs=1e5, los=None, height=W.rand_height(rng, False), scen=("dur", "dur", "urb", "sur")[i % 4],
                       band=("Ka", "S")[i % 8 == 7], elev=float(rng.choice((10, 20, 30, 40))),
                       precision=rng.choice(("single", "double")), ut_arr=W.rand_array(rng, 4), bs_arr=W.rand_array(rng, 4))
        c["spread"] = 3e4
        out.append(c)
    return out


def run(c, m):
    ns = boot()
    double = c["precision"] == "double"
    obs = {}
    topo = None
    for d in (c["dir"], "uplink" if c["dir"] == "downlink" else "downlink"):
        cc = dict(c, dir=d)
        model, _, _ = W.make_model(ns, cc)
        topo = topo or W.topology(ns, cc)
        with record() as tr:
            model.set_topology(los=cc["los"], **topo)
            outs = [model(c["T"], c["fs"]) for _ in range(2)]
        s = W.scen(model)
        ul = d == "uplink"
        sw = (lambda x: np.swapaxes(x, 1, 2)) if ul else (lambda x: x)
        txa, rxa = (c["ut_arr"], c["bs_arr"]) if ul else (c["bs_arr"], c["ut_arr"])
        num = (c["ut"], c["bs"]) if ul else (c["bs"], c["ut"])
        los = np_of(s.los)
        m.need(len(tr.of("rays")) == 2 and len(tr.of("cir")) == 2, "one generation per call")
        for (a, tau), e, r in zip(outs, tr.of("cir"), tr.of("rays")):
            a, tau = np_of(a), np_of(tau)
            # stage inputs: every user keeps its own draws, ends swapped in uplink
            for f in ("delays", "powers", "xpr"):
                m.close("attached", getattr(e.rays, f), sw(getattr(r, f)), atol=0, msg=f"{f}, {d}")
            for f, g in (("aoa", "aod"), ("zoa", "zod"), ("aod", "aoa"), ("zod", "zoa")):
                m.close("attached", getattr(e.rays, f), sw(getattr(r, g if ul else f)), atol=0,
                        msg=f"{f}, {d}")
            m.close("attached", e.k_factor, sw(r.lsp.k_factor), atol=0, msg=f"Rician factor, {d}")
            if e.c_ds is not None:
                m.close("attached", e.c_ds, sw(T.per_link(cc, "cDS", los)) * 1e-9, rtol=1e-6,
                        msg=f"cluster delay spread, {d}")
            match.snapshot(m, "ends", e, cc, s, np_of)
            match.cir(m, "coefficients", e, c["fc"], txa, rxa, double)
            # what comes out
            P = max(T.clusters(cc, True), T.clusters(cc, False)) + 4
            m.shape("output", a, (c["batch"], num[1], W.num_ant(rxa), num[0], W.num_ant(txa), P, c["T"]))
            m.shape("output", tau, (c["batch"], num[1], num[0], P))
            m.close("output", np.swapaxes(tau, 1, 2), e.delays, atol=0, msg="delays")
            h = np.transpose(a.astype(complex), (0, 3, 1, 5, 2, 4, 6))
            gain = np.ones(los.shape)
            if c["pl"]:
                gain = gain * 10 ** (-np_of(tr.last("pathloss")).astype(float) / 20)
            if c["sf"]:
                gain = gain * np.sqrt(r.lsp.sf.astype(float))
            g = sw(gain)[:, :, :, None, None, None, None]
            sc = np.abs(e.h).max(axis=(3, 4, 5, 6), keepdims=True) * g
            ok = np.broadcast_to(sc > 0, h.shape)
            m.close("output", (h / np.where(sc > 0, sc, 1))[ok],
                    (e.h * g / np.where(sc > 0, sc, 1))[ok], atol=1e-9 if double else 3e-5,
                    msg=f"each user's own loss, {d}")
            n = (np.abs(h).max(axis=(4, 5, 6)) > 0).sum(-1)
            want = np.where(sw(los), T.clusters(cc, True), T.clusters(cc, False)) + 4
            live = n > 0
            if "aperture" not in (c["ut_arr"]["pattern"], c["bs_arr"]["pattern"]):
                m.close("user keeps its state", n[live], want[live], msg=f"number of paths, {d}")
        obs[d] = {k: np_of(getattr(s, k)).astype(float) for k in SAME}
        obs[d]["basic"] = np_of(s.basic_pathloss).astype(float)
        obs[d]["los"] = los
    a, b = obs["uplink"], obs["downlink"]
    for k in SAME:
        m.close("same in both directions", a[k], b[k], rtol=1e-12 if double else 1e-6, atol=1e-9, msg=k)
    if not c["sf"] and c["los"] is not None:
        m.close("same in both directions", a["basic"], b["basic"], rtol=1e-12 if double else 1e-6,
                msg="basic path loss")
    m.seen(c["scen"], T.band(c["fc"]), c["batch"], c["ut"], c["bs"], W.num_ant(c["ut_arr"]),
           W.num_ant(c["bs_arr"]), c["los"], c["always"], c["pl"], c["sf"])
    m.sample(cfg=W.brief(c), ut_ant=W.num_ant(c["ut_arr"]), bs_ant=W.num_ant(c["bs_arr"]))
