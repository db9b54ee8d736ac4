"""Configurations and topologies the real code is driven with.

A configuration is a plain dict (written to replays); `build` turns it into a
model with its topology set, `rand_cfg` draws one.
"""
import math

SCEN = ("dur", "urb", "sur")
PATTERNS = ("omni", "38.901", "aperture", "dlp")
LIMIT_FC = (1.9e9, 2.0e9, 4.0e9, 19.0e9, 20.0e9, 30.0e9, 40.0e9)


def rand_fc(rng, band=None):
    band = band or rng.choice(("S", "Ka"))
    r = rng.random()
    if band == "S":
        return rng.choice((1.9e9, 2.0e9, 4.0e9)) if r < 0.5 else \
            float(round(rng.uniform(1.9e9, 4.0e9), -3))
    return rng.choice((19.0e9, 20.0e9, 30.0e9, 40.0e9)) if r < 0.5 else \
        float(round(rng.uniform(19.0e9, 40.0e9), -3))


def rand_elev(rng):
    r = rng.random()
    if r < 0.35:
        return float(rng.choice(range(10, 91, 10)))
    if r < 0.55:     # just beside a rounding edge of the tables
        e = rng.choice((15, 25, 35, 45, 55, 65, 75, 85))
        return e + rng.choice((-1, 1)) * rng.choice((0.01, 0.2, 1.0))
    if r < 0.7:
        return rng.choice((10.0, 10.5, 90.0, 89.5))
    return round(rng.uniform(10.0, 90.0), 3)


def rand_height(rng, sat_only=True):
    r = rng.random()
    if not sat_only and r < 0.3:
        return float(round(rng.choice((8e3, 20e3, 50e3, 159e3, 161e3, 599e3))
                           * rng.uniform(0.999, 1.0)))
    if r < 0.55:
        return rng.choice((600e3, 1200e3, 35786e3))
    return float(round(math.exp(rng.uniform(math.log(600e3), math.log(36e6)))))


def rand_array(rng, max_ant=8, patterns=PATTERNS, simple=False):
    pol = rng.choice(("single", "dual"))
    ptype = rng.choice(("V", "H") if pol == "single" else ("VH", "cross"))
    pattern = rng.choice(patterns)
    if simple:
        return dict(kind="Antenna", pol=pol, ptype=ptype, pattern=pattern)
    kind = rng.choice(("Antenna", "AntennaArray", "PanelArray"))
    if kind == "Antenna":
        return dict(kind=kind, pol=pol, ptype=ptype, pattern=pattern)
    p = 1 if pol == "single" else 2
    while True:
        r, c = rng.randint(1, 3), rng.randint(1, 3)
        pr, pc = (rng.randint(1, 2), rng.randint(1, 2)) if kind == "PanelArray" else (1, 1)
        if r * c * pr * pc * p <= max_ant:
            break
    a = dict(kind=kind, rows=r, cols=c, pol=pol, ptype=ptype, pattern=pattern)
    if rng.random() < 0.6:
        a["vs"] = round(rng.uniform(0.2, 1.5), 3)
        a["hs"] = round(rng.uniform(0.2, 1.5), 3)
    if kind == "PanelArray":
        a["prow"], a["pcol"] = pr, pc
        if rng.random() < 0.6:
            a["pvs"] = round((r - 1) * a.get("vs", 0.5) + rng.uniform(0.1, 1.5), 3)
            a["phs"] = round((c - 1) * a.get("hs", 0.5) + rng.uniform(0.1, 1.5), 3)
    return a


def make_array(ns, a, fc, precision):
    kw = dict(polarization=a["pol"], polarization_type=a["ptype"],
              antenna_pattern=a["pattern"], carrier_frequency=fc,
              precision=precision)
    if a["kind"] == "Antenna":
        return ns.t.Antenna(**kw)
    if a["kind"] == "AntennaArray":
        return ns.t.AntennaArray(num_rows=a["rows"], num_cols=a["cols"],
                                 vertical_spacing=a.get("vs"),
                                 horizontal_spacing=a.get("hs"), **kw)
    return ns.t.PanelArray(num_rows_per_panel=a["rows"],
                           num_cols_per_panel=a["cols"],
                           num_rows=a.get("prow", 1), num_cols=a.get("pcol", 1),
                           panel_vertical_spacing=a.get("pvs"),
                           panel_horizontal_spacing=a.get("phs"),
                           element_vertical_spacing=a.get("vs"),
                           element_horizontal_spacing=a.get("hs"), **kw)


def num_ant(a):
    return a.get("rows", 1) * a.get("cols", 1) * a.get("prow", 1) * \
        a.get("pcol", 1) * (2 if a["pol"] == "dual" else 1)


def rand_cfg(rng, **over):
    """A random supported configuration; entries of `over` are fixed."""
    c = dict(scen=rng.choice(SCEN), dir=rng.choice(("downlink", "uplink")),
             elev=rand_elev(rng), height=rand_height(rng),
             pl=rng.random() < 0.6, sf=rng.random() < 0.6,
             doppler=rng.random() < 0.7, precision="single",
             batch=rng.choice((1, 2, 3)), ut=rng.choice((1, 2, 3, 5)), bs=1,
             topo=rng.choice(("gen", "custom", "custom")),
             los=rng.choice((None, True, False)), T=rng.choice((1, 2, 5)),
             fs=rng.choice((1e3, 1e5, 30.72e6)), always=False)
    c.update(over)
    if "fc" not in c:
        c["fc"] = rand_fc(rng, c.pop("band", None))
    c.pop("band", None)
    if "ut_arr" not in c:
        c["ut_arr"] = rand_array(rng)
    if "bs_arr" not in c:
        c["bs_arr"] = rand_array(rng)
    c["topo_seed"] = rng.randrange(2**31)
    return c


def gen_kwargs(c):
    kw = dict(batch_size=c["batch"], num_ut=c["ut"], scenario=c["scen"],
              bs_height=c["height"], elevation_angle=c["elev"],
              precision=c["precision"])
    kw.update(c.get("gen", {}))
    return kw


def custom_topology(c, np):
    """Free-form topology: numpy float64 arrays."""
    r = np.random.RandomState(c["topo_seed"])
    B, U, S = c["batch"], c["ut"], c["bs"]
    bs = np.zeros((B, S, 3))
    bs[..., :2] = r.uniform(-5e4, 5e4, (B, S, 2)) if c.get("bs_off", True) else 0.
    h = np.full(B, float(c["height"]))
    if c.get("heights"):
        h = np.array([c["heights"][i % len(c["heights"])] for i in range(B)], float)
    bs[..., 2] = h[:, None]
    if c.get("bs_dh"):               # platforms of one example at different heights
        bs[:, 1:, 2] *= r.uniform(.4, 1.6, (B, S - 1))
    # users in a patch somewhere around the ground point seen at the elevation
    centre = r.uniform(-1, 1, (B, 1, 2))
    centre /= np.maximum(np.linalg.norm(centre, axis=-1, keepdims=True), 1e-3)
    dist = h / np.tan(np.radians(max(min(c["elev"], 89.0), 10.0)))
    spread = c.get("spread", 300.0)
    ut = np.zeros((B, U, 3))
    ut[..., :2] = bs[:, :1, :2] + centre * dist[:, None, None] + \
        r.uniform(-spread, spread, (B, U, 2))
    if c.get("beneath"):
        ut[:, 0, :2] = bs[:, 0, :2]
    if c.get("colocated") and U > 1:
        ut[:, 1, :2] = ut[:, 0, :2]
    ut[..., 2] = r.uniform(1.0, 25.0, (B, U))
    uto = r.uniform(-np.pi, np.pi, (B, U, 3))
    bso = r.uniform(-np.pi, np.pi, (B, S, 3))
    if c.get("face", False):         # users face the platform, it faces down
        uto = np.stack([np.arctan2(ut[..., 1] - bs[:, :1, 1], ut[..., 0] - bs[:, :1, 0]),
                        np.full((B, U), np.radians(c["elev"]) + np.pi),
                        np.full((B, U), np.radians(c["elev"]) + np.pi / 2)], -1)
        bso = np.broadcast_to([0., np.pi / 2, 0.], (B, S, 3)).copy()
    vel = r.uniform(-1, 1, (B, U, 3)) * c.get("vmax", 50.0)
    if c.get("vflat"):
        vel[..., 2] = 0.
    return dict(ut_loc=ut, bs_loc=bs, ut_orientations=uto, bs_orientations=bso,
                ut_velocities=vel, in_state=np.zeros((B, U), bool))


TOPO_KEYS = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations",
             "ut_velocities", "in_state")


def topology(ns, c):
    tf, np = ns.tf, ns.np
    rd = tf.float64 if c["precision"] == "double" else tf.float32
    if c["topo"] == "gen":
        t = ns.utils.gen_single_sector_topology(**gen_kwargs(c))
        return dict(zip(TOPO_KEYS, t))
    t = custom_topology(c, np)
    return {k: tf.constant(v, tf.bool if k == "in_state" else rd)
            for k, v in t.items()}


def make_model(ns, c):
    ut = make_array(ns, c["ut_arr"], c["fc"], c["precision"])
    bs = make_array(ns, c["bs_arr"], c["fc"], c["precision"])
    model = ns.models[c["scen"]](
        carrier_frequency=c["fc"], ut_array=ut, bs_array=bs,
        direction=c["dir"], elevation_angle=c["elev"], enable_pathloss=c["pl"],
        enable_shadow_fading=c["sf"], doppler_enabled=c["doppler"],
        always_generate_lsp=c.get("always", False), precision=c["precision"])
    return model, ut, bs


def scen(model):
    """The scenario of a model (or the scenario itself)."""
    from rt.boot import boot
    cls = boot().t.SystemLevelScenario
    if isinstance(model, cls):
        return model
    x = getattr(model, "_scenario", None)
    if isinstance(x, cls):
        return x
    return next(v for v in vars(model).values() if isinstance(v, cls))


def build(ns, c):
    model, ut, bs = make_model(ns, c)
    topo = topology(ns, c)
    if (c["topo_seed"] >> 7) % 2 and c.get("history", True):
        # hostile past: another drop of the same sizes in other states, used once
        past = topology(ns, dict(c, topo_seed=(c["topo_seed"] * 7 + 11) % 2**31))
        model.set_topology(los=None if c["los"] is None else not c["los"], **past)
        model(1, 1e4)
    model.set_topology(los=c["los"], **topo)
    return model, topo, ut, bs


def brief(c):
    return {k: c[k] for k in ("scen", "dir", "fc", "elev", "height", "batch", "ut",
                              "bs", "los", "T", "topo", "precision")}
