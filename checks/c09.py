"""C09: each link uses the tabulated parameters of its scenario, band, angle and state.

Oracle: a frozen copy of the tables (rt/tables), looked up independently.
"""
import numpy as np

from checks.c05 import SCN
from rt import refmodel as R, tables as T, workload as W
from rt.boot import boot
from rt.recorder import np_of, record

RULE = ("one distinct case = (scenario, band, direction, tabulated angle, offset of the elevation "
        "from it, states present)")
MIN_EVENTS = {"table": 20000, "log statistics": 500, "cluster count": 100, "los probability": 100,
              "zod offset": 100, "cluster delay spread used": 20}
ANT = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")


def cases(tier, rng):
    out = []
    offs = (0.0,) if tier == "quick" else (0.0, 4.9, -4.9, 1.3, -3.2)
    for scen in W.SCEN:
        for bnd in ("S", "Ka"):
            for d in ("downlink", "uplink"):
                for a in range(10, 91, 10):
                    for k, o in enumerate(offs):
                        if tier == "quick":
                            o = rng.choice((0.0, 4.99, -4.99, 4.5, -4.5, 0.7, -2.0))
                        elev = min(90.0, max(10.0, a + o))
                        c = W.rand_cfg(rng, scen=scen, band=bnd, dir=d, elev=elev, topo="custom",
                                       batch=rng.choice((1, 2, 3)), ut=rng.choice((4, 7, 9)),
                                       bs=rng.choice((1, 1, 2)), T=1, pl=False,
                                       sf=rng.random() < .5,
                                       los=rng.choice((None, None, True, False)),
                                       precision=rng.choice(("single", "double")))
                        c["ut_arr"] = c["bs_arr"] = ANT
                        c["deep"] = (a // 10 + k) % 5 == 0
                        out.append(c)
    return out


def run(c, m):
    ns = boot()
    double = c["precision"] == "double"
    rt = 1e-12 if double else 3e-7
    if c["deep"]:
        model, topo, _, _ = W.build(ns, c)
        s = W.scen(model)
    else:
        arr = W.make_array(ns, ANT, c["fc"], c["precision"])
        s = getattr(ns.t, SCN[c["scen"]])(c["fc"], arr, arr, c["dir"], c["elev"],
                                         precision=c["precision"])
        topo = W.topology(ns, c)
        s.set_topology(los=c["los"], **topo)
    los = np_of(s.los)
    m.shape("shape", los, (c["batch"], c["bs"], c["ut"]))
    names = sorted({k.rsplit("_", 1)[0] for k in T.load(c["scen"], "LOS", T.band(c["fc"]), c["dir"])
                    if k.rsplit("_", 1)[-1].isdigit()} | set(T.PER_STATE))
    for n in names:
        got = np_of(s.get_param(n)).astype(float)
        want = np.where(los, T.value(c, n, True), T.value(c, n, False))
        m.close("table", got, want, rtol=rt, msg=f"{n} at elevation {c['elev']}")
    # derived statistics
    mean = np.where(los[..., None], T.lsp_mean(c, True), T.lsp_mean(c, False))
    std = np.where(los[..., None], T.lsp_std(c, True), T.lsp_std(c, False))
    m.close("log statistics", np_of(s.lsp_log_mean).astype(float), mean, rtol=rt, msg="log mean")
    m.close("log statistics", np_of(s.lsp_log_std).astype(float), std, rtol=rt, msg="log std")
    nl, nn = T.clusters(c, True), T.clusters(c, False)
    m.check(int(np_of(s.num_clusters_los)) == nl, "cluster count", "LOS")
    m.check(int(np_of(s.num_clusters_nlos)) == nn, "cluster count", "NLOS")
    m.check(int(np_of(s.num_clusters_max)) == max(nl, nn), "cluster count", "max")
    m.check(int(np_of(s.rays_per_cluster)) == 20, "cluster count", "rays")
    m.close("los probability", np_of(s.los_probability).astype(float), T.value(c, "LoS_p", True), rtol=rt)
    g = R.geometry(np_of(topo["ut_loc"]).astype(float), np_of(topo["bs_loc"]).astype(float), c["elev"])
    with np.errstate(divide="ignore"):
        zo = np.where(los, 0., np.arctan(31.5 / g["d2"]) - np.arctan(33.5 / g["d2"]))
    m.close("zod offset", np_of(s.zod_offset).astype(float), zo, rtol=1e-9 if double else 1e-3,
            atol=1e-12 if double else 1e-6)
    if c["deep"]:
        with record() as tr:
            model(1, 1e3)
        e, r = tr.last("cir"), tr.last("rays")
        cds = np.where(los, T.value(c, "cDS", True), T.value(c, "cDS", False)) * 1e-9
        if c["dir"] == "uplink":
            cds = np.swapaxes(cds, 1, 2)
        m.close("cluster delay spread used", e.c_ds.astype(float), cds, rtol=1e-6)
        n = (r.powers > 0).sum(-1)
        m.close("cluster count", n, np.where(los, nl, nn), msg="clusters with power")
    for st in np.unique(los):
        m.seen(c["scen"], T.band(c["fc"]), c["dir"], T.nearest(c["elev"]),
               round(c["elev"] - T.nearest(c["elev"]), 2), bool(st))
    m.count("links LOS", los.sum())
    m.count("links NLOS", (~los).sum())
    m.sample(cfg=W.brief(c), los=int(los.sum()), links=int(los.size))
