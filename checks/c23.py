"""C23: unsupported configurations are rejected, supported limits accepted.

Hostile single-fault workload: every base configuration is valid, exactly one
ingredient is moved out of the documented domain (to just beside its limit, far
away, or to another kind of value); the same ingredient at its limit must work.
"""
import numpy as np

from checks.c05 import SCN
from rt import workload as W
from rt.boot import boot
from rt.recorder import np_of

RULE = "one distinct case = (class, ingredient, value kind) of a rejection or an acceptance"
MIN_EVENTS = {"carrier rejected": 300, "elevation rejected": 200, "direction rejected": 100, "array rejected": 200,
              "array carrier rejected": 150, "antenna rejected": 200, "scenario name rejected": 50,
              "topology rejected": 200, "accepted": 300, "accepted channel": 20, "recovered": 20}

BAD_FC = (0., -2e9, 1e9, 1.8999e9, 4.0001e9, 4.5e9, 10e9, 18.9999e9, 40.0001e9, 60e9, 1e12, float("nan"), float("inf"),
          2.0, 30.)
GOOD_FC = (1.9e9, 4.0e9, 19e9, 40e9, 1900000000, 40000000000, 2e9, 3.99999e9, 19.00001e9, 30e9, 1.90001e9)
BAD_EL = (9.999, 90.001, 0., -10., -45., 5., 91., 135., 180., 1000., float("nan"), float("inf"), 1.3)
GOOD_EL = (10., 90., 10, 90, 10.0001, 89.9999, 15., 45, 55.)
BAD_DIR = ("up", "Uplink", "DOWNLINK", "", "forward", "uplink ", "ul", None, 1, True, "downlinkuplink", ("uplink",))
BAD_PAT = ("", "Omni", "38901", "tr38901", "iso", None, "38.811", "apertur", "dlpx", 3)
BAD_POL = ("", "Single", "triple", None, 2, "cross", "V", "VH")
BAD_TYPE = {"single": ("VH", "cross", "", None, "v", "slant"), "dual": ("V", "H", "", None, "vh", "X")}
BAD_SCEN = ("", "rural", "umi", "uma", "URB", "dense", "urban", None, "urbs", "dursur", 1, "rur")


def cases(tier, rng):
    k = {"quick": 1, "thorough": 8}[tier]
    out = []
    for scen in W.SCEN:
        for p in ("single", "double"):
            for i in range(2 * k):
                out.append(dict(kind="models", scen=scen, precision=p))
    for i in range(6 * k):
        out.append(dict(kind="antennas", precision=rng.choice(("single", "double"))))
    for i in range(4 * k):
        out.append(dict(kind="topologies", precision=rng.choice(("single", "double"))))
    for i in range(12 * k):
        out.append(dict(kind="order", scen=W.SCEN[i % 3], precision=rng.choice(("single", "double"))))
    for i in range(24 * k):
        c = W.rand_cfg(rng, elev=rng.choice((10., 90., 10, 90)), fc=rng.choice(W.LIMIT_FC), T=1,
                       precision=rng.choice(("single", "double")), topo=rng.choice(("gen", "custom")),
                       height=rng.choice((600e3, 35786e3, 36000e3)))
        out.append(dict(kind="limits", cfg=c))
    return out


def reject(m, key, f, what):
    try:
        f()
    except Exception as e:                       # noqa: BLE001
        return m.check(True, key), e
    m.check(False, key, f"accepted: {what}")
    return False, None


def models(ns, m, c):
    r = np.random.RandomState(c["seed"] % 2**31)
    p = c["precision"]
    targets = {c["scen"]: ns.models[c["scen"]], SCN[c["scen"]]: getattr(ns.t, SCN[c["scen"]])}
    A = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")
    fc = float(W.LIMIT_FC[r.randint(len(W.LIMIT_FC))])
    el = float(r.uniform(10, 90))
    arr = {f: W.make_array(ns, A, f, p) for f in {fc, *GOOD_FC}}
    d0 = ("uplink", "downlink")[r.randint(2)]
    for name, cls in targets.items():
        def make(fc=fc, ut=None, bs=None, direction=d0, elev=el, kw=r.rand() < .5, **x):
            ut = arr.get(fc, arr[f0]) if ut is None else ut
            bs = arr.get(fc, arr[f0]) if bs is None else bs
            if kw:
                return cls(carrier_frequency=fc, ut_array=ut, bs_array=bs, direction=direction, elevation_angle=elev,
                           precision=p, **x)
            return cls(fc, ut, bs, direction, elev, precision=p, **x)
        f0 = fc
        for f in GOOD_FC:
            for d in ("uplink", "downlink"):
                s = make(fc=f, direction=d)
                s = W.scen(s)
                m.close("accepted", float(s.carrier_frequency), f, rtol=1e-6, msg="carrier")
                m.check(s.direction == d, "accepted", "direction")
        for e in GOOD_EL:
            s = make(elev=e)
            s = W.scen(s)
            m.close("accepted", float(s.elevation_angle), e, rtol=1e-6, msg="elevation")
        for f in BAD_FC:
            # arrays of the same (bad) carrier, so that only the carrier is wrong
            try:
                a = W.make_array(ns, A, f, p)
            except Exception:                    # noqa: BLE001
                a = arr[fc]
            for d in ("uplink", "downlink"):
                reject(m, "carrier rejected", lambda: make(fc=f, ut=a, bs=a, direction=d), f"{name} at {f} Hz {d}")
            m.seen(name, "carrier", f)
        for f in r.uniform(4.001e9, 18.999e9, 3):
            a = W.make_array(ns, A, float(f), p)
            reject(m, "carrier rejected", lambda: make(fc=float(f), ut=a, bs=a), f"{name} at {f} Hz")
        for e in BAD_EL:
            for d in ("uplink", "downlink"):
                reject(m, "elevation rejected", lambda: make(elev=e, direction=d), f"{name} at elevation {e}")
            m.seen(name, "elevation", e)
        for d in BAD_DIR:
            reject(m, "direction rejected", lambda: make(direction=d), f"{name} direction {d!r}")
            m.seen(name, "direction", repr(d))
        wrong = ("omni", 1, [arr[fc]], ns.t.AntennaElement("omni", precision=p),
                 ns.t.AntennaPanel(1, 1, "single", .5, .5, precision=p), object(), {"pattern": "omni"})
        for w in wrong:
            for end in ("ut", "bs", "both"):
                kw = {k: w for k in (("ut", "bs") if end == "both" else (end,))}
                reject(m, "array rejected", lambda: make(**kw), f"{name}: {end} array {w!r}")
                m.seen(name, "array", type(w).__name__, end)
        for f in (fc * 1.001, fc * .999, fc * 2, 2e9 if fc > 1e10 else 30e9, fc + 1e6):
            try:
                w = W.make_array(ns, dict(A, kind=("Antenna", "AntennaArray", "PanelArray")[r.randint(3)], rows=2, cols=1),
                                 float(f), p)
            except Exception:                    # noqa: BLE001
                continue
            for end in ("ut", "bs", "both"):
                kw = {k: w for k in (("ut", "bs") if end == "both" else (end,))}
                reject(m, "array carrier rejected", lambda: make(**kw), f"{name} at {fc}: {end} array for {f} Hz")
                m.seen(name, "array carrier", end, round(float(f / fc), 3))


def antennas(ns, m, c):
    p = c["precision"]
    r = np.random.RandomState(c["seed"] % 2**31)
    fc = float(W.LIMIT_FC[r.randint(len(W.LIMIT_FC))])

    def all_kinds(pol, ptype, pat):
        yield lambda: ns.t.Antenna(polarization=pol, polarization_type=ptype, antenna_pattern=pat, carrier_frequency=fc,
                                   precision=p)
        yield lambda: ns.t.AntennaArray(num_rows=2, num_cols=1, polarization=pol, polarization_type=ptype,
                                        antenna_pattern=pat, carrier_frequency=fc, precision=p)
        yield lambda: ns.t.PanelArray(num_rows_per_panel=1, num_cols_per_panel=2, polarization=pol,
                                      polarization_type=ptype, antenna_pattern=pat, carrier_frequency=fc, precision=p)

    good = {"single": ("V", "H"), "dual": ("VH", "cross")}
    for pol in good:
        for pt in good[pol]:
            for pat in W.PATTERNS:
                for i, f in enumerate(all_kinds(pol, pt, pat)):
                    f()
                    m.check(True, "accepted")
    for pat in BAD_PAT:
        pol = ("single", "dual")[r.randint(2)]
        reject(m, "antenna rejected", lambda: ns.t.AntennaElement(pat, precision=p), f"element pattern {pat!r}")
        for f in all_kinds(pol, good[pol][r.randint(2)], pat):
            reject(m, "antenna rejected", f, f"pattern {pat!r}")
        m.seen("pattern", repr(pat))
    for pol in BAD_POL:
        for pt in ("V", "VH", "H", "cross"):
            for f in all_kinds(pol, pt, "omni"):
                reject(m, "antenna rejected", f, f"polarization {pol!r} type {pt}")
        reject(m, "antenna rejected", lambda: ns.t.AntennaPanel(1, 2, pol, .5, .5, precision=p), f"panel polarization {pol!r}")
        m.seen("polarization", repr(pol))
    for pol, bad in BAD_TYPE.items():
        for pt in bad:
            for f in all_kinds(pol, pt, "38.901"):
                reject(m, "antenna rejected", f, f"{pol} with type {pt!r}")
            m.seen("type", pol, repr(pt))
    # overlapping panels
    for n, v, pv in ((2, .5, .5), (3, .5, .9), (2, 1., .3), (4, .7, 2.05), (2, .5, .25)):
        for ax in ("v", "h"):
            kw = dict(num_rows_per_panel=n if ax == "v" else 1, num_cols_per_panel=n if ax == "h" else 1)
            el = dict(element_vertical_spacing=v, element_horizontal_spacing=v)
            ps = {"panel_vertical_spacing" if ax == "v" else "panel_horizontal_spacing": pv}
            b = dict(polarization="single", polarization_type="V", antenna_pattern="omni", carrier_frequency=fc,
                     num_rows=2, num_cols=2, precision=p)
            reject(m, "antenna rejected", lambda: ns.t.PanelArray(**kw, **el, **ps, **b), f"panels {pv} apart of size {(n - 1) * v}")
            ps = {k: (n - 1) * v + .01 for k in ps}
            ns.t.PanelArray(**kw, **el, **ps, **b)
            m.check(True, "accepted")


def topologies(ns, m, c):
    p = c["precision"]
    g = ns.utils
    fs = {"gen_single_sector_topology": lambda s: g.gen_single_sector_topology(2, 3, s, precision=p),
          "set_3gpp_scenario_parameters": lambda s: g.set_3gpp_scenario_parameters(s, precision=p)}
    for name, f in fs.items():
        for s in W.SCEN:
            f(s)
            m.check(True, "accepted")
        for s in BAD_SCEN:
            reject(m, "scenario name rejected", lambda: f(s), f"{name}({s!r})")
            m.seen(name, repr(s))
    import tensorflow as tf
    z = tf.zeros([2, 3, 2], tf.float64 if p == "double" else tf.float32)
    v = (600e3, 80., 500., 1.5, 1.5, 0., 0., 0.)
    v = [tf.constant(x, z.dtype) for x in v]
    g.generate_uts_topology(2, 3, "sector", z[0, 0], *v, precision=p)
    m.check(True, "accepted")
    for bad in ("", "hexagon", None, "Sector", 7, "sectors"):
        reject(m, "scenario name rejected", lambda: g.generate_uts_topology(2, 3, bad, z[0, 0], *v, precision=p),
               f"drop area {bad!r}")


def order(ns, m, c):
    """Nothing is generated, and no update accepted, before a complete topology."""
    r = np.random.RandomState(c["seed"] % 2**31)
    cfg = dict(scen=c["scen"], dir=("uplink", "downlink")[r.randint(2)], fc=2e9 if r.rand() < .5 else 30e9, elev=60.,
               height=600e3, pl=True, sf=True, doppler=True, precision=c["precision"], batch=2, ut=2, bs=1, topo="custom",
               los=None, topo_seed=int(r.randint(1000)), ut_arr=dict(kind="Antenna", pol="single", ptype="V", pattern="omni"),
               bs_arr=dict(kind="Antenna", pol="dual", ptype="VH", pattern="omni"))
    topo = W.topology(ns, cfg)
    model, _, _ = W.make_model(ns, cfg)
    reject(m, "topology rejected", lambda: model(1, 1e3), "generation without a topology")
    reject(m, "topology rejected", lambda: model(3, 1e6), "generation without a topology, again")
    for k in W.TOPO_KEYS:                                   # each missing entry alone
        fresh, _, _ = W.make_model(ns, cfg)
        part = {q: v for q, v in topo.items() if q != k}
        los = [None, True, False][r.randint(3)]
        reject(m, "topology rejected", lambda: fresh.set_topology(los=los, **part), f"topology without {k}")
        reject(m, "topology rejected", lambda: fresh(1, 1e3), f"generation after a topology without {k}")
        reject(m, "topology rejected", lambda: fresh.set_topology(**{k: topo[k]}), f"only {k}")
        reject(m, "topology rejected", lambda: fresh(1, 1e3), f"generation after only {k}")
        m.seen("missing", k, c["scen"], str(los))
        fresh.set_topology(**topo)                          # and a complete one makes it work
        h, d = fresh(1, 1e3)
        m.check(np.isfinite(np_of(h)).all(), "recovered", f"channel after a rejected topology without {k}")
    fresh, _, _ = W.make_model(ns, cfg)
    reject(m, "topology rejected", lambda: fresh.set_topology(), "empty topology")
    reject(m, "topology rejected", lambda: fresh.set_topology(los=True), "only a state request")


def limits(ns, m, c):
    """The closed domain works, at its very limits, to the end."""
    cfg = c["cfg"]
    model, topo, _, _ = W.build(ns, cfg)
    h, d = model(cfg["T"], cfg["fs"])
    m.check(np.isfinite(np_of(h)).all() and np.isfinite(np_of(d)).all(), "accepted channel", f"{W.brief(cfg)}")
    dark = "aperture" in (cfg["ut_arr"]["pattern"], cfg["bs_arr"]["pattern"])     # no radiation backwards
    m.check(dark or np.abs(np_of(h)).max() > 0, "accepted channel", f"silent channel {W.brief(cfg)}")
    m.seen("limit", cfg["scen"], cfg["fc"], cfg["elev"], cfg["dir"], cfg["precision"])


def run(c, m):
    ns = boot()
    dict(models=models, antennas=antennas, topologies=topologies, order=order, limits=limits)[c["kind"]](ns, m, c)
    m.sample(**{k: v for k, v in c.items() if k != "cfg"})
