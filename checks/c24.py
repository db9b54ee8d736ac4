"""C24: double precision is honoured end to end, single precision agrees with it.

Oracles: declared precision against the type of every public quantity and of
every value crossing a stage boundary; granularity of the values (a quantity
that passed through single precision is a single-precision number); the float64
reference, with the path length taken from the positions, for long phases.
"""
import numpy as np

from checks.c05 import SCN
from rt import match, refmodel as R, workload as W
from rt.boot import boot
from rt.recorder import np_of, record

RULE = ("one distinct case = (how the precision is selected, scenario, direction, band, topology source, "
        "arrays, LOS request, execution mode)")
MIN_EVENTS = {"phase:time": 40, "type": 2000, "granularity": 800, "phase:los": 40, "phase:path": 500, "line of sight": 40,
              "agreement": 500, "arrays": 100, "element": 100, "frozen": 50, "accuracy": 500}
TINY = ("bs_loc", "bs_orientations", "h_bs")


def cases(tier, rng):
    k = {"quick": 1, "thorough": 12}[tier]
    out = []
    for i in range(36 * k):
        how = ("explicit double", "config double", "double over single", "single over double", "config single",
               "changed after")[i % 6]
        c = W.rand_cfg(rng, scen=W.SCEN[(i // 6) % 3], topo="gen", los=rng.choice((None, True, False)),
                       batch=rng.choice((2, 3)), ut=rng.choice((3, 4)), T=3, fs=rng.choice((1e3, 1e5, 7.77e6)),
                       height=W.rand_height(rng, False),
                       gen=dict(min_ut_velocity=1., max_ut_velocity=33.3, min_ut_height=1., max_ut_height=22.))
        out.append(dict(kind="types", how=how, cfg=c, graph=rng.random() < .12))
    for i in range(36 * k):
        c = W.rand_cfg(rng, precision="double", topo=rng.choice(("gen", "custom")), los=rng.choice((True, True, None)),
                       T=rng.choice((2, 50)), fs=rng.choice((1e2, 1e4, 30.72e6, 1e5 / 3, 1e6 / 7, 0.1e9 / 9)), height=W.rand_height(rng, i % 4 != 0),
                       ut=rng.choice((1, 2)))
        out.append(dict(kind="phase", cfg=c))
    for i in range(36 * k):
        c = W.rand_cfg(rng, precision="double", topo="custom", los=rng.choice((True, False)), batch=2, ut=3,
                       bs=rng.choice((1, 2)), sf=False, pl=True, height=W.rand_height(rng, False))
        c["bs_off"] = rng.random() < .5
        out.append(dict(kind="twins", cfg=c))
    return out


def floats(ns, obj, skip=()):
    """Public tensor properties of an object, with their names."""
    for k in dir(type(obj)):
        if k.startswith("_") or k in skip or not isinstance(getattr(type(obj), k, None), property):
            continue
        try:
            v = getattr(obj, k)
        except Exception:                        # noqa: BLE001  (not available for this configuration)
            continue
        if ns.tf.is_tensor(v) and (v.dtype.is_floating or v.dtype.is_complex):
            yield k, v


def coarse(m, name, x):
    """x was computed in double precision: not (mostly) single-precision numbers."""
    x = np.asarray(x)
    x = np.concatenate([x.real.ravel(), x.imag.ravel()]) if np.iscomplexobj(x) else x.ravel()
    x = x[np.isfinite(x) & (x != 0) & (np.abs(x) > 1e-30)]
    x, n = np.unique(x, return_counts=True)
    if len(x) < 8:
        return
    with np.errstate(all="ignore"):
        f = float((x.astype(np.float32).astype(float) == x).mean())
    # limits such as 52 degrees and locations given by the user are exact in both
    m.check(f < .5, "granularity", f"{name}: {f:.0%} of {len(x)} distinct values are single-precision numbers", n=len(x) // 8)


def accurate(ns, m, cfg, topo, p, seed):
    """Utilities and generated topologies to double accuracy."""
    tf, g, rd = ns.tf, ns.utils, ns.tf.float64
    r = np.random.RandomState(seed % 2**31)
    x = r.uniform(-400, 400, 30)
    ok = lambda a, b, msg, at=0.: m.close("accuracy", np_of(a), b, rtol=1e-13, atol=at, msg=msg)
    ok(g.deg_2_rad(tf.constant(x, rd)), np.radians(x), "deg_2_rad")
    ok(g.rad_2_deg(tf.constant(x, rd)), np.degrees(x), "rad_2_deg")
    ok(g.wrap_angle_0_360(tf.constant(x, rd)), np.mod(x, 360.), "wrap_angle_0_360", 1e-12)
    f = r.uniform(1e3, 1e6)
    ok(g.subcarrier_frequencies(7, f, precision=p), (np.arange(7) - 3) * f, "subcarrier frequencies")
    t, w = g.time_frequency_vector(8, 1 / f, precision=p)
    ok(t, (np.arange(8) - 4) / f, "time grid")
    ok(w, (np.arange(8) - 4) * f / 8, "frequency grid", 1e-9)
    a, ph, sg = complex(r.uniform(0, .7), r.uniform(0, .7)), r.uniform(-80, 80), r.uniform(1, 15)
    n = np.arange(4)
    d = n[:, None] - n[None]
    ok(g.exp_corr_mat(a, 4, precision=p), np.where(d >= 0, a ** np.abs(d), np.conj(a) ** np.abs(d)), "exponential matrix", 1e-14)
    d = 2 * np.pi * .7 * d
    ok(g.one_ring_corr_mat(ph, 4, .7, sg, precision=p), np.exp(1j * d * np.sin(np.radians(ph))) *
       np.exp(-np.radians(sg) ** 2 / 2 * (d * np.cos(np.radians(ph))) ** 2), "one ring matrix", 1e-13)
    h = r.randn(1, 1, 1, 1, 1, 5, 2) + 1j * r.randn(1, 1, 1, 1, 1, 5, 2)
    tau, q = np.sort(r.uniform(0, 1e-4, (1, 1, 1, 5))), r.uniform(-1e7, 1e7, 6)
    got = g.cir_to_ofdm_channel(tf.constant(q, rd), tf.constant(h), tf.constant(tau, rd))
    ok(np_of(got)[0, 0, 0, 0, 0], np.einsum("pt,pf->tf", h[0, 0, 0, 0, 0], np.exp(-2j * np.pi * tau[0, 0, 0][:, None] * q)),
       "frequency response", 1e-10)
    got = g.cir_to_time_channel(f, tf.constant(h), tf.constant(tau, rd), -2, 3)
    ok(np_of(got)[0, 0, 0, 0, 0], np.einsum("pt,pl->tl", h[0, 0, 0, 0, 0], np.sinc(np.arange(-2, 4) - f * tau[0, 0, 0][:, None])),
       "taps", 1e-11)
    # users' boresights
    o, u = np_of(topo["ut_orientations"]), np_of(topo["ut_loc"])
    if cfg["topo"] == "gen":
        b = R.rotation(o)[..., :, 0]
        ok(b[..., 2], np.full(b.shape[:-1], np.sin(np.radians(cfg["elev"]))), "tilt of the boresight", 1e-12)
        rho = np.hypot(u[..., 0], u[..., 1])
        s = (rho > 1.) & (np.hypot(b[..., 0], b[..., 1]) > .01)
        az = np.arctan2(b[..., 1], b[..., 0]) - np.arctan2(-u[..., 1], -u[..., 0])
        ok(np.sin(az[s]), 0 * az[s], "azimuth of the boresight", 1e-12)


def types(ns, m, c):
    tf = ns.tf
    cfg, how = dict(c["cfg"]), c["how"]
    arg, conf, want = {"explicit double": ("double", "single", "double"), "config double": (None, "double", "double"),
                       "double over single": ("double", "single", "double"),
                       "single over double": ("single", "double", "single"),
                       "config single": (None, "single", "single"),
                       "changed after": (None, "double", "double")}[how]
    ns.config.precision = conf
    cfg["precision"] = arg
    double = want == "double"
    rd, cd = (tf.float64, tf.complex128) if double else (tf.float32, tf.complex64)
    nr, nc = np.dtype(rd.as_numpy_dtype), np.dtype(cd.as_numpy_dtype)
    model, topo, ut, bs = W.build(ns, cfg)
    if how == "changed after":           # objects keep the precision they were made with
        ns.config.precision = "single"
    for k, v in topo.items():
        if k != "in_state":
            m.check(v.dtype == rd, "type", f"{how}: generated {k} is {v.dtype}")
            if double and k not in TINY:
                coarse(m, f"generated {k}", np_of(v))
    go = (lambda: model(cfg["T"], cfg["fs"]))
    if c["graph"]:
        h, tau = ns.tf.function(go)()
        tr = None
    else:
        with record() as tr:
            h, tau = go()
    m.check(h.dtype == cd, "type", f"{how}: coefficients are {h.dtype}")
    m.check(tau.dtype == rd, "type", f"{how}: delays are {tau.dtype}")
    if double:
        coarse(m, "coefficients", np_of(h))
        coarse(m, "delays", np_of(tau)[np_of(tau) < .5])
    if tr is not None:
        for kind, e in tr.events:
            todo = [(kind, e)]
            while todo:
                name, o = todo.pop()
                if isinstance(o, np.ndarray):
                    if o.dtype.kind in "fc" and not name.endswith((".t", "elevation_angle")):
                        m.check(o.dtype == (nc if o.dtype.kind == "c" else nr), "type", f"{how}: {name} is {o.dtype}")
                        if double:
                            coarse(m, name, o[o < .5] if name.endswith("delays") else o)
                elif type(o).__name__ == "SimpleNamespace":
                    todo += [(f"{name}.{k}", v) for k, v in vars(o).items()]
    for obj, name in ((W.scen(model), "scenario"), (ut, "user array"), (bs, "platform array")):
        for k, v in floats(ns, obj):
            m.check(v.dtype in (rd, cd), "type", f"{how}: {name} {k} is {v.dtype}")
            if double and name == "scenario" and k not in TINY + ("lsp_log_std",):
                coarse(m, f"scenario {k}", np_of(v))
    # utilities
    g = ns.utils
    p = arg
    ns.config.precision = conf
    for name, f in (("subcarrier_frequencies", lambda: g.subcarrier_frequencies(7, 15e3, precision=p)),
                    ("time_frequency_vector", lambda: g.time_frequency_vector(7, 1e-3, precision=p))):
        for v in (f() if isinstance(f(), tuple) else (f(),)):
            m.check(v.dtype == rd, "type", f"{how}: {name} gives {v.dtype}")
    for name, f in (("exp_corr_mat", lambda: g.exp_corr_mat(.7, 3, precision=p)),
                    ("one_ring_corr_mat", lambda: g.one_ring_corr_mat(12., 3, precision=p))):
        m.check(f().dtype == cd, "type", f"{how}: {name} gives {f().dtype}")
    for v in g.set_3gpp_scenario_parameters(cfg["scen"], precision=p):
        if tf.is_tensor(v):
            m.check(v.dtype == rd, "type", f"{how}: scenario parameter is {v.dtype}")
    if double:
        accurate(ns, m, cfg, topo, p, c["seed"])
    el = ns.t.AntennaElement(cfg["ut_arr"]["pattern"], precision=p)
    for v in el.field(tf.constant([.3, 1.], rd), tf.constant([.2, -1.], rd)):
        m.check(v.dtype == rd, "type", f"{how}: element field is {v.dtype}")
    f = np_of(h)
    hf = g.cir_to_ofdm_channel(tf.constant([1e3, -1e5], rd), h, tau)
    m.check(hf.dtype == cd, "type", f"{how}: frequency response is {hf.dtype}")
    hf = g.cir_to_time_channel(1e6, h, tau, -2, 3)
    m.check(hf.dtype == cd, "type", f"{how}: taps are {hf.dtype}")
    m.seen("types", how, cfg["scen"], cfg["dir"], cfg["fc"] > 1e10, cfg["los"], c["graph"], cfg["height"] >= 6e5)


def phase(ns, m, c):
    """Phases over the whole path, long times and high speeds."""
    cfg = c["cfg"]
    model, topo, _, _ = W.build(ns, cfg)
    with record() as tr:
        # alone, or the way the blocks of Sionna ask for it
        args = (cfg["T"], cfg["fs"]) if c["seed"] % 2 else (cfg["batch"], cfg["T"], cfg["fs"])
        model(*args)
    e = tr.last("cir")
    if e.t is not None:
        m.close("phase:time", np.ravel(e.t), np.arange(cfg["T"]) / cfg["fs"], rtol=1e-15, msg=f"sampling instants at {cfg['fs']} Hz")
    ut, bs = (np_of(topo[k]) for k in ("ut_loc", "bs_loc"))
    g = R.geometry(ut, bs, cfg["elev"])
    ul = cfg["dir"] == "uplink"
    d = np.array(g["d3"] if ul is False else np.swapaxes(g["d3"], 1, 2))
    m.close("line of sight", e.topology.distance_3d, d, rtol=1e-14, atol=1e-8, msg="path length given to the phase")
    # the reference from the positions: everything but the random rays
    e.topology.distance_3d = d
    for k, a in (("los_aoa", "aod" if ul else "aoa"), ("los_aod", "aoa" if ul else "aod"),
                 ("los_zoa", "zod" if ul else "zoa"), ("los_zod", "zoa" if ul else "zod")):
        w = np.radians(np.swapaxes(g[a], 1, 2) if ul else g[a])
        m.angle_close("line of sight", getattr(e.topology, k), w, atol=1e-11, period=2 * np.pi, msg=k)
        setattr(e.topology, k, np.array(w))
    for k in ("ut_velocities",):
        m.close("line of sight", e.topology.velocities, np_of(topo[k]), rtol=1e-15)
    txa, rxa = (cfg["ut_arr"], cfg["bs_arr"]) if ul else (cfg["bs_arr"], cfg["ut_arr"])
    # accumulated phase, double rounding of it and of the path length (a difference of earth radii)
    w = 2 * np.pi * cfg["fc"] / R.C0
    tol = 1e-9 + w * (8e3 * (cfg["T"] - 1) / cfg["fs"] * 1e-14 + d.max() * 1e-15 + 1e-8)
    if "aperture" in (txa["pattern"], rxa["pattern"]):
        tol += 1e-6
    match.cir(m, "phase", e, cfg["fc"], txa, rxa, True, tol=tol)
    m.seen("phase", cfg["scen"], cfg["dir"], cfg["fc"] > 1e10, round(np.log10(d.max())), cfg["T"], cfg["topo"])


SAME = {"distance_2d": (1e-6, .5), "distance_3d": (1e-6, 2.), "zod_offset": (1e-3, 1e-6), "lsp_log_mean": (1e-6, 1e-6),
        "lsp_log_std": (1e-6, 1e-6), "los_probability": (1e-6, 0), "gas_pathloss": (1e-4, 1e-5),
        "scintillation_pathloss": (3e-3, 3e-3), "entry_pathloss": (0, 1e-9),
        "free_space_pathloss": (1e-6, 2e-3), "basic_pathloss": (1e-6, 2e-3), "h_bs": (1e-6, 0), "h_ut": (1e-6, 1e-5),
        "lambda_0": (1e-6, 0), "carrier_frequency": (1e-6, 0)}


def twins(ns, m, c):
    """The same scene in both precisions."""
    cfg = c["cfg"]
    topo = W.custom_topology(cfg, np)
    topo = {k: v if v.dtype == bool else v.astype(np.float32) for k, v in topo.items()}   # the same numbers in both
    tf, got, arrays = ns.tf, {}, {}
    r = np.random.RandomState(c["seed"] % 2**31)
    th, ph = r.uniform(0, np.pi, 200).astype(np.float32), r.uniform(-np.pi, np.pi, 200).astype(np.float32)
    el = {}
    for p in ("single", "double"):
        rd = tf.float64 if p == "double" else tf.float32
        ua, ba = (W.make_array(ns, cfg[k], cfg["fc"], p) for k in ("ut_arr", "bs_arr"))
        s = getattr(ns.t, SCN[cfg["scen"]])(cfg["fc"], ua, ba, cfg["dir"], cfg["elev"], enable_pathloss=True,
                                            enable_shadow_fading=False, precision=p)
        s.set_topology(los=cfg["los"], **{k: tf.constant(v) if v.dtype == bool else tf.constant(v, rd) for k, v in topo.items()})
        got[p] = {k: np_of(v).astype(float) for k, v in floats(ns, s)}
        arrays[p] = [{k: np_of(v).astype(float) for k, v in floats(ns, a)} for a in (ua, ba)]
        e = ns.t.AntennaElement(cfg["ut_arr"]["pattern"], .3, precision=p)
        el[p] = [np_of(v).astype(float) for v in e.field(tf.constant(th, rd), tf.constant(ph, rd))]
    low = min(float(x) for x in np.ravel(topo["bs_loc"][..., 2]))
    for k in got["double"]:
        a, b = got["single"].get(k), got["double"][k]
        if a is None or not m.check(a.shape == b.shape, "agreement", f"{k}: shapes {a.shape} {b.shape}"):
            continue
        if k in ("los_aoa", "los_aod"):
            ok = got["double"]["distance_2d"] > 50.
            m.angle_close("agreement", a[ok], b[ok], atol=.02, msg=k)
        elif k in ("los_zoa", "los_zod"):
            m.close("agreement", a, b, atol=.02 if low > 1e4 else .1, msg=k)
        elif k in SAME:
            rt, at = SAME[k]
            if k in ("free_space_pathloss", "basic_pathloss"):
                at += 20. / low
            m.close("agreement", a, b, rtol=rt, atol=at, msg=k)
    for x, y in zip(*(arrays[p] for p in ("single", "double"))):
        for k in y:
            if k in x:
                m.close("arrays", x[k], y[k], rtol=1e-6, atol=1e-6 * np.abs(y[k]).max(), msg=k)
    for x, y in zip(el["single"], el["double"]):
        m.close("element", x, y, atol=2e-3 * np.abs(np.stack(el["double"])).max(), msg="element field", rtol=0)
    m.ev["element"] += 5
    # double quantities are not moved by what single precision cannot see
    rd = tf.float64
    d = {k: v.astype(float) for k, v in topo.items() if v.dtype != bool}
    ua, ba = (W.make_array(ns, cfg[k], cfg["fc"], "double") for k in ("ut_arr", "bs_arr"))

    def at(bs):
        s = getattr(ns.t, SCN[cfg["scen"]])(cfg["fc"], ua, ba, cfg["dir"], cfg["elev"], enable_pathloss=True,
                                            enable_shadow_fading=False, precision="double")
        s.set_topology(los=cfg["los"], in_state=tf.constant(topo["in_state"]),
                       **{k: tf.constant(bs if k == "bs_loc" else d[k], rd) for k in d})
        return np_of(s.distance_3d), np_of(s.distance_2d)
    step = .0123
    b2 = d["bs_loc"].copy()
    b2[..., 2] += step
    (a3, _), (c3, _) = at(d["bs_loc"]), at(b2)
    w = R.geometry(d["ut_loc"], b2, cfg["elev"])["d3"] - R.geometry(d["ut_loc"], d["bs_loc"], cfg["elev"])["d3"]
    m.close("frozen", c3 - a3, w, atol=1e-7, msg="a platform moved by millimetres")
    u = d["bs_loc"].copy()
    u[..., 0] += step
    (_, a2), (_, c2) = at(d["bs_loc"]), at(u)
    w = R.geometry(d["ut_loc"], u, cfg["elev"])["d2"] - R.geometry(d["ut_loc"], d["bs_loc"], cfg["elev"])["d2"]
    m.close("frozen", c2 - a2, w, atol=1e-7, msg="a platform shifted by millimetres")
    m.seen("twins", cfg["scen"], cfg["dir"], cfg["fc"] > 1e10, cfg["los"], cfg["ut_arr"]["pattern"], cfg["bs_arr"]["kind"])


def run(c, m):
    ns = boot()
    dict(types=types, phase=phase, twins=twins)[c["kind"]](ns, m, c)
    m.sample(kind=c["kind"], **W.brief(c["cfg"]))
