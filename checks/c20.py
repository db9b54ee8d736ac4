"""C20: graph and XLA execution agree with eager execution.

The traced function returns, besides the channel, every stage's tensors (the
recorder's events hold symbolic tensors that are filled with the values of each
execution), so compiled runs are judged like eager ones: deterministic results
against eager values and the ray superposition, random ones for freshness in
every execution and for their distribution against eager draws.
"""
import math
import types

import numpy as np

from rt import match, refmodel as R, tables as T, workload as W
from rt.boot import boot
from rt.recorder import fetches, fill, np_of, record

RULE = "one distinct case = (mode, what is traced, scenario, direction, band, patterns, precision)"
MIN_EVENTS = {"same as eager": 100, "same type and shape": 30, "fresh": 60, "coefficients:path": 200,
              "same distribution": 40, "generator": 4, "usable afterwards": 8, "finite": 30, "gain": 20}
ASSUMPTIONS = ["XLA cannot compile TensorFlow's Bessel function, so the aperture pattern is exercised in "
               "graph mode only"]
ANT = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")
GEO = ("distance_2d", "distance_3d", "los_aod", "los_aoa", "los_zod", "los_zoa", "matrix_ut_distance_2d",
       "free_space_pathloss", "gas_pathloss", "scintillation_pathloss", "entry_pathloss")
STATE = ("lsp_log_mean", "lsp_log_std")
KEEP = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "los", "basic_pathloss")


def cases(tier, rng):
    out = []
    rep = 1 if tier == "quick" else 8
    for _ in range(rep):
        for mode in ("graph", "xla"):
            for s in W.SCEN:
                for d in ("downlink", "uplink"):
                    pats = W.PATTERNS if mode == "graph" else ("omni", "38.901", "dlp")
                    c = W.rand_cfg(rng, scen=s, dir=d, topo="custom", batch=rng.choice((1, 2, 3)),
                                   ut=rng.choice((1, 2, 4)), bs=rng.choice((1, 1, 2)), T=rng.choice((1, 2)),
                                   fs=rng.choice((1e5, 30.72e6)), height=W.rand_height(rng, False),
                                   precision=rng.choice(("single", "double", "double")), always=rng.random() < .4,
                                   ut_arr=W.rand_array(rng, patterns=pats), bs_arr=W.rand_array(rng, patterns=pats))
                    out.append(dict(kind="stages", mode=mode, inside=rng.random() < .7, fed=rng.random() < .5,
                                    past=rng.random() < .5, cfg=c))
        some = [(m_, s, d) for m_ in ("graph", "xla") for s in W.SCEN for d in ("downlink", "uplink")]
        if tier == "quick":
            rng.shuffle(some)
            some = some[:6]
        for mode, s, d in some:
            c = W.rand_cfg(rng, scen=s, dir=d, topo=rng.choice(("gen", "custom")), batch=1200, ut=1, bs=1, T=2, fs=1e6, los=None,
                           precision=rng.choice(("single", "double")), height=600e3, doppler=True,
                           pl=False, sf=rng.random() < .5)
            c["ut_arr"] = c["bs_arr"] = ANT
            out.append(dict(kind="law", mode=mode, cfg=c))
    return out


def traced(ns, mode, build, *args):
    """Compile build(*args) -> tree; returns run() giving the filled tree."""
    box = {}

    @ns.tf.function(jit_compile=mode == "xla")
    def f(*a):
        box["tree"] = build(*a)
        return fetches(box["tree"])

    def go():
        v = f(*args)
        return fill(box["tree"], v)
    return go


def look(model):
    s = W.scen(model)
    return types.SimpleNamespace(**{k: np_of(getattr(s, k)) for k in GEO + STATE + KEEP})


def stages(ns, m, c, mode, inside, fed, past):
    double = c["precision"] == "double"
    ns.config.xla_compat = mode == "xla"
    model, _, _ = W.make_model(ns, c)
    topo = W.topology(ns, c)
    if past:             # the instance was used eagerly with another drop before
        other = W.topology(ns, dict(c, topo_seed=c["topo_seed"] ^ 1))
        model.set_topology(los=None if c["los"] is None else not c["los"], **other)
        model(1, c["fs"])
    if not inside:
        model.set_topology(los=c["los"], **topo)

    def build(t=topo):
        with record() as tr:
            if inside:
                model.set_topology(los=c["los"], **t)
            a, tau = model(c["T"], c["fs"])
        return dict(a=np_of(a), tau=np_of(tau), ev=tr.events, scen=look(model))
    # the drop enters as constants of the graph or as its arguments
    run = traced(ns, mode, build, *([topo] if inside and fed else []))
    runs = [run() for _ in range(3)]
    # eager reference on the same topology
    eager, _, _ = W.make_model(ns, c)
    eager.set_topology(los=c["los"], **topo)
    ea, etau = eager(c["T"], c["fs"])
    ref = look(eager)
    rt = 1e-9 if double else 2e-5
    ul = c["dir"] == "uplink"
    txa, rxa = (c["ut_arr"], c["bs_arr"]) if ul else (c["bs_arr"], c["ut_arr"])
    where = f"{mode}, {c['scen']} {c['dir']} {c['precision']}"
    for r in runs:
        for k in GEO + (STATE + KEEP[:-1] if c["los"] is not None else KEEP[:-2]):
            x, y = getattr(r["scen"], k), getattr(ref, k)
            m.check(x.dtype == y.dtype and x.shape == y.shape, "same type and shape", f"{k}: {x.dtype}{x.shape}, "
                    f"eager {y.dtype}{y.shape}; {where}")
            # atan2 near the seam: angles modulo 360
            if k.startswith("los_"):
                m.angle_close("same as eager", x, y, atol=1e-9 if double else 2e-3, msg=f"{k}, {where}")
            else:
                m.close("same as eager", x, y, rtol=rt, atol=1e-9 if double else 1e-4, msg=f"{k}, {where}")
        for k, y in (("a", ea), ("tau", etau)):
            x = r[k]
            m.check(x.dtype == y.numpy().dtype and x.shape == tuple(y.shape), "same type and shape",
                    f"{k}: {x.dtype}{x.shape}; {where}")
            m.check(np.isfinite(x).all(), "finite", f"{k} not finite; {where}")
        ev = dict(r["ev"])
        e, rays = ev["cir"], ev["rays"]
        match.snapshot(m, "ends", e, c, r["scen"], np_of)
        match.cir(m, "coefficients", e, c["fc"], txa, rxa, double)
        m.close("rays", rays.powers.astype(float).sum(-1), 1., atol=1e-5, msg="power sum")
        # gains
        g = np.ones(r["scen"].los.shape)
        if c["pl"]:
            g = g * 10 ** (-ev["pathloss"].astype(float) / 20)
        if c["sf"]:
            g = g * np.sqrt(rays.lsp.sf.astype(float))
        g = (np.swapaxes(g, 1, 2) if ul else g)[:, :, :, None, None, None, None]
        h = np.transpose(r["a"].astype(complex), (0, 3, 1, 5, 2, 4, 6))
        sc = np.abs(e.h).max(axis=(3, 4, 5, 6), keepdims=True) * g
        sc[sc == 0] = 1
        m.close("gain", h / sc, e.h * g / sc, atol=1e-9 if double else 3e-5, msg=where)
        los = r["scen"].los
        if c["los"] is not None:
            m.check((los == c["los"]).all(), "same as eager", f"forced state; {where}")
    # every execution draws fresh randomness, at every stage
    A, B = runs[0], runs[1]
    ea_, eb_ = dict(A["ev"]), dict(B["ev"])
    items = [("delays", ea_["rays"].delays, eb_["rays"].delays), ("powers", ea_["rays"].powers, eb_["rays"].powers),
             ("xpr", ea_["rays"].xpr, eb_["rays"].xpr), ("aoa", ea_["rays"].aoa, eb_["rays"].aoa),
             ("zoa", ea_["rays"].zoa, eb_["rays"].zoa), ("phases", ea_["cir"].phi, eb_["cir"].phi),
             ("platform speed", ea_["cir"].topology.sat_speed, eb_["cir"].topology.sat_speed)]
    if c["height"] < 150e3 and double:
        if all(np.isfinite(T.lsp_mean(c, st)[1]) for st in (True, False)):   # tabulated spread not zero
            items.append(("aod", ea_["rays"].aod, eb_["rays"].aod))
    redraw = inside or c["always"]
    if redraw:
        # (each parameter alone may sit at its limit in a small drop)
        items += [(k, getattr(ea_["rays"].lsp, k), getattr(eb_["rays"].lsp, k)) for k in ("ds",)]
    for k, x, y in items:
        m.check(not np.array_equal(x, y), "fresh", f"{k} identical in two executions; {where}, "
                f"{'topology inside' if inside else 'topology outside'}")
    if not redraw:
        for k in ("ds", "asa", "zsa", "sf", "k_factor"):
            m.check(np.array_equal(getattr(ea_["rays"].lsp, k), getattr(eb_["rays"].lsp, k)), "same as eager",
                    f"{k} did not persist; {where}")
    if inside and c["sf"]:
        m.check(not np.array_equal(A["scen"].basic_pathloss, B["scen"].basic_pathloss), "fresh",
                f"path-loss shadowing identical in two executions; {where}")
    # eager use of the same instance afterwards
    ns.config.xla_compat = False
    model.set_topology(los=c["los"], **topo)
    a2, t2 = model(c["T"], c["fs"])
    m.check(np.isfinite(np_of(a2)).all() and a2.shape == ea.shape, "usable afterwards", where)


def stats(r, c):
    e = dict(r["ev"])
    rays, cir = e["rays"], e["cir"]
    L = rays.lsp
    s = r["scen"]
    los = s.los.ravel()
    f = lambda x: np.asarray(x, float).reshape(len(los), -1)
    p = f(rays.powers)
    out = {"ds": np.log10(f(L.ds)[:, 0]), "asa": np.log10(f(L.asa)[:, 0]), "zsa": np.log10(f(L.zsa)[:, 0]),
           "asd": np.log10(f(L.asd)[:, 0]), "sf": np.log10(f(L.sf)[:, 0]), "basic": f(s.basic_pathloss)[:, 0],
           "strongest": p.max(1), "second moment": (p ** 2).sum(1),
           "mean excess": (p * np.minimum(f(rays.delays), 1e-3)).sum(1) / f(L.ds)[:, 0],
           "xpr": np.log10(f(rays.xpr)).mean(1), "one xpr": np.log10(f(rays.xpr)[:, 0]),
           "phase": f(cir.phi)[:, 0], "phase sum": np.abs(np.exp(1j * f(cir.phi)).sum(1)),
           "speed": f(cir.topology.sat_speed)[:, 0],
           "gain": np.log10((np.abs(f(np.abs(r["a"]))) ** 2).sum(1) + 1e-30),
           "range": f(s.distance_2d)[:, 0]}
    one = np.exp(1j * (f(rays.aoa).reshape(len(los), -1, 20)[:, 1] - np.radians(f(s.los_aoa)))).mean(-1)
    out["arrival azimuth"] = np.angle(one)
    out["user speed"] = np.linalg.norm(s.ut_velocities[:, 0].astype(float), axis=-1)
    if los.any():
        out["k"] = np.log10(f(L.k_factor)[los, 0])
    return out, los.mean(), len(los)


def law(ns, m, c, mode):
    ns.config.xla_compat = mode == "xla"
    model, _, _ = W.make_model(ns, c)
    topo = None
    if c["topo"] == "custom":
        topo = W.topology(ns, c)
        topo = [topo[k] for k in W.TOPO_KEYS]

    def build():
        with record() as tr:
            t = topo or ns.utils.gen_single_sector_topology(
                batch_size=c["batch"], num_ut=1, scenario=c["scen"], bs_height=c["height"], min_ut_velocity=1.,
                max_ut_velocity=9., elevation_angle=c["elev"], precision=c["precision"])
            model.set_topology(los=None, **dict(zip(W.TOPO_KEYS, t)))
            a, tau = model(c["T"], c["fs"])
        return dict(a=np_of(a), tau=np_of(tau), ev=tr.events, scen=look(model), topo=[np_of(x) for x in t])
    run = traced(ns, mode, build)
    g, g2 = run(), run()
    ns.config.xla_compat = False
    model2, _, _ = W.make_model(ns, c)
    model, keep = model2, model
    e = build()
    where = f"{mode}, {c['scen']} {c['dir']} {c['precision']}"
    for x, y, n in zip(g["topo"], e["topo"], W.TOPO_KEYS):
        m.check(x.dtype == y.dtype and x.shape == y.shape, "generator", f"{n}: {x.dtype}{x.shape}; {where}")
    for i in (0, 4) if topo is None else ():
        m.check(not np.array_equal(g["topo"][i], g2["topo"][i]), "fresh", f"{W.TOPO_KEYS[i]} identical; {where}")
    m.check(not np.array_equal(g["scen"].los, g2["scen"].los) or g["scen"].los.mean() in (0., 1.) or
            g["scen"].los.mean() > .99, "fresh", f"LOS states identical in two executions; {where}")
    (sg, lg, n), (s2, l2, _), (se, le, _) = stats(g, c), stats(g2, c), stats(e, c)
    p = T.value(c, "LoS_p", True)
    for l in (lg, l2):
        m.check(abs(l - p) < 6.5 * math.sqrt(p * (1 - p) / n) + 1e-3, "same distribution",
                f"share of LOS {l}, probability {p}; {where}")
    for k in se:
        # generated drops share one base point per call: what depends on where
        # the cell lies is not comparable between calls
        if k in ("gain", "range", "user speed") and (topo is None) == (k == "gain"):
            continue
        x, y = np.sort(np.r_[sg[k], s2[k]]), np.sort(se[k])
        allv = np.r_[x, y]
        # values closer than dv are not told apart (rounding of degenerate laws)
        dv = 1e-4 * max(1., np.abs(allv).max())
        F = lambda z, v: np.searchsorted(z, v, "right") / len(z)
        D = max((F(x, allv - dv) - F(y, allv)).max(), (F(y, allv - dv) - F(x, allv)).max())
        ne = len(x) * len(y) / (len(x) + len(y))
        m.check(D * math.sqrt(ne) < 3.4, "same distribution", f"{k}: distance {D * math.sqrt(ne):.2f} between "
                f"compiled and eager draws, means {x.mean():.4g} and {y.mean():.4g}; {where}", n=len(allv))
        # the two executions of one function are independent draws
        if len(sg[k]) == len(s2[k]) > 500 and np.std(sg[k]) > 0 and topo is None:
            r = np.corrcoef(sg[k], s2[k])[0, 1]
            if k not in ("gain", "basic", "k", "range"):
                m.check(abs(r) < 6.5 / math.sqrt(len(sg[k])) + .02, "fresh", f"{k}: executions correlate {r:.2f}; {where}")


def run(c, m):
    ns = boot()
    if c["kind"] == "stages":
        stages(ns, m, c["cfg"], c["mode"], c["inside"], c["fed"], c["past"])
    else:
        law(ns, m, c["cfg"], c["mode"])
    g = c["cfg"]
    m.seen(c["kind"], c["mode"], c.get("inside"), c.get("fed"), c.get("past"), g["scen"], g["dir"], g["fc"] > 1e10, g["ut_arr"]["pattern"],
           g["bs_arr"]["pattern"], g["precision"])
    m.sample(kind=c["kind"], mode=c["mode"], cfg=W.brief(g))
