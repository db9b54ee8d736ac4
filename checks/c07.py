"""C07: partial topology updates keep the rest and leave nothing stale.

A shadow state receives the same update history; after every update the whole
observable scenario is compared with it, with closed-form references and with
a freshly configured scenario.
"""
import numpy as np

from checks.c05 import SCN
from rt import match, refmodel as R, tables as T, workload as W
from rt.boot import boot
from rt.recorder import np_of, record

RULE = ("one distinct case = (scenario, direction, band, level (scenario/model), "
        "sequence of updated parameter sets)")
MIN_EVENTS = {"kept": 500, "derived": 500, "fresh": 100, "next generation": 20, "rejected": 10}
ATM = ("latitude", "lwc", "rain_rate", "atmospheric_pressure", "temperature",
       "water_vapor_density", "relative_humidity", "diameter_earth_antenna", "antenna_efficiency")
ATM_DEFAULT = dict(atmospheric_pressure=1020, temperature=273, water_vapor_density=7.5,
                   relative_humidity=50, diameter_earth_antenna=3.6, antenna_efficiency=0.5)
OPS = (["ut_loc"], ["bs_loc"], ["ut_velocities"], ["ut_orientations"], ["bs_orientations"],
       ["los"], ["in_state"], ["atm"], ["doppler_enabled"], ["ut_loc", "ut_velocities"],
       ["ut_orientations", "bs_orientations"], ["bs_loc", "los"], ["ut_loc", "atm"],
       ["atm", "ut_velocities"], ["all"], ["nothing"], ["los", "doppler_enabled"])


def cases(tier, rng):
    n = {"quick": 60, "thorough": 800}[tier]
    out = []
    for i in range(n):
        c = W.rand_cfg(rng, topo="custom", sf=False, pl=True, precision=rng.choice(("single", "double")),
                       los=rng.choice((True, False, True, None)), T=3, fs=1e5,
                       bs=rng.choice((1, 1, 2)), batch=rng.choice((1, 2, 3)), ut=rng.choice((1, 2, 4)))
        c["ut_arr"] = W.rand_array(rng, 4)
        c["bs_arr"] = W.rand_array(rng, 4)
        c["level"] = ("scenario", "model")[i % 2]
        c["ops"] = [rng.choice(OPS) for _ in range(rng.randint(3, 8 if tier == "quick" else 14))]
        c["reject"] = rng.choice(W.TOPO_KEYS)
        out.append(c)
    return out


def draw(ns, c, r, key, shadow):
    """New value of a parameter, different from the current one."""
    tf = ns.tf
    rd = tf.float64 if c["precision"] == "double" else tf.float32
    d = dict(c)
    d["topo_seed"] = int(r.randint(2**31 - 1))
    d["height"] = float(r.choice([6e5, 1.2e6, 3.5e7, 2e4, 5.9e5]))
    d["heights"] = None
    if key == "los":
        return bool(r.randint(2))
    if key == "doppler_enabled":
        return bool(r.randint(2))
    if key == "atm":
        v = dict(latitude=r.uniform(0, 60), lwc=r.uniform(0, 1), rain_rate=r.uniform(0, 100),
                 atmospheric_pressure=r.uniform(900, 1080), temperature=r.uniform(240, 310),
                 water_vapor_density=r.uniform(.5, 20), relative_humidity=r.uniform(5, 95),
                 diameter_earth_antenna=r.uniform(.5, 5), antenna_efficiency=r.uniform(.1, 1))
        ks = [k for k in ATM if r.rand() < .4] or [ATM[r.randint(len(ATM))]]
        return {k: float(v[k]) for k in ks}
    if key == "bs_loc":       # keep the users where they are: same ground, new height/offset
        b = shadow["bs_loc"].copy()
        b[..., 2] = d["height"]
        b[..., :2] += r.uniform(-5e3, 5e3, b[..., :2].shape)
        return b
    return W.custom_topology(d, np)[key]


def sparse(r, old, new):
    """The old value with a single entry replaced: one example, one node, one coordinate."""
    out = old.copy()
    i = tuple(int(r.randint(n)) for n in old.shape)
    if r.rand() < .3:                  # the same coordinate of all nodes
        out[..., i[-1]] = new[..., i[-1]] if new.shape == old.shape else out[..., i[-1]] + 1.
    else:
        out[i] = new[i] if new.shape == old.shape else out[i] + 1.
    return out


def tensors(ns, c, kw):
    tf = ns.tf
    rd = tf.float64 if c["precision"] == "double" else tf.float32
    out = {}
    for k, v in kw.items():
        if isinstance(v, np.ndarray):
            out[k] = tf.constant(v, tf.bool if k == "in_state" else rd)
        elif k == "los" and v is not None:
            out[k] = tf.constant(v)
        else:
            out[k] = v
    return out


def make(ns, c):
    if c["level"] == "model":
        return W.make_model(ns, c)[0]
    ut = W.make_array(ns, c["ut_arr"], c["fc"], c["precision"])
    bs = W.make_array(ns, c["bs_arr"], c["fc"], c["precision"])
    return getattr(ns.t, SCN[c["scen"]])(
        c["fc"], ut, bs, c["dir"], c["elev"], enable_pathloss=True, enable_shadow_fading=False,
        doppler_enabled=c["doppler"], precision=c["precision"])


DERIVED = ("distance_2d", "distance_3d", "los_aod", "los_aoa", "los_zod", "los_zoa",
           "matrix_ut_distance_2d", "lsp_log_mean", "lsp_log_std", "zod_offset",
           "basic_pathloss", "gas_pathloss", "scintillation_pathloss", "entry_pathloss")


def verify(ns, c, m, s, sh, double):
    rt = 1e-12 if double else 2e-6
    for k in W.TOPO_KEYS:
        m.close("kept", np_of(getattr(s, "indoor" if k == "in_state" else k)), sh[k],
                rtol=rt, atol=1e-9, msg=f"{k} is not the last given value")
    m.check(bool(s.doppler_enabled) == bool(sh["doppler_enabled"]), "kept", "doppler_enabled")
    for k in ATM:        # what the losses show is compared below; these are looked at where they can be seen
        v = getattr(s, k, getattr(s, "_" + k, None))
        if k in sh["atm"] and v is not None:
            m.close("kept", np_of(v), sh["atm"][k], rtol=1e-6, msg=f"{k} is not the last given value")
    los = np_of(s.los)
    m.shape("state shape", los, (sh["ut_loc"].shape[0], sh["bs_loc"].shape[1], sh["ut_loc"].shape[1]))
    if sh["los"] is not None:
        m.check((los == sh["los"]).all(), "kept", "requested LOS state", n=los.size)
    g = R.geometry(sh["ut_loc"], sh["bs_loc"], c["elev"])
    span = max(np.abs(sh["ut_loc"]).max(), np.abs(sh["bs_loc"]).max())
    e = span * (1e-14 if double else 5e-7)
    m.close("derived", np_of(s.distance_2d), g["d2"], rtol=1e-6, atol=e, msg="distance_2d")
    m.close("derived", np_of(s.distance_3d), g["d3"], rtol=1e-6, atol=max(e, 2.0), msg="distance_3d")
    m.close("derived", np_of(s.los_zod), g["zod"], atol=2e-3, msg="los_zod")
    ok = g["d2"] > 1e3 * e
    dev = np.abs(np.mod(np_of(s.los_aod) - g["aod"] + 180, 360) - 180)
    m.check((dev[ok] < .1).all(), "derived", "los_aod", n=int(ok.sum()))
    m.close("derived", np_of(s.matrix_ut_distance_2d), g["uu"], rtol=1e-6, atol=2 * e, msg="user distances")
    for dc in (1., 30., 1e3):
        m.close("derived", np_of(s.spatial_correlation_matrix(ns.tf.constant(dc, s.matrix_ut_distance_2d.dtype))),
                np.exp(-np_of(s.matrix_ut_distance_2d).astype(float) / dc), rtol=2e-5, atol=1e-7, msg="spatial correlation")
    mean = np.where(los[..., None], T.lsp_mean(c, True), T.lsp_mean(c, False))
    std = np.where(los[..., None], T.lsp_std(c, True), T.lsp_std(c, False))
    m.close("derived", np_of(s.lsp_log_mean), mean, rtol=1e-6, atol=1e-7, msg="lsp_log_mean")
    m.close("derived", np_of(s.lsp_log_std), std, rtol=1e-6, atol=1e-7, msg="lsp_log_std")
    det = R.fspl(c["fc"], g["d3"]) + T.per_link(c, "CL", los)
    m.close("derived", np_of(s.basic_pathloss), det, atol=2e-4 + 10 / g["d3"].min(), msg="basic path loss")
    a = {**ATM_DEFAULT, **{k: v for k, v in sh["atm"].items() if k in ATM_DEFAULT}}
    lo, hi = R.gas_interval(c["fc"], c["elev"], a["temperature"], a["atmospheric_pressure"],
                            a["water_vapor_density"])
    gas = np_of(s.gas_pathloss)
    m.check(((gas >= lo * .9999 - 1e-6) & (gas <= hi * 1.0001 + 1e-6)).all(), "derived",
            f"gas loss {gas.ravel()[:2]} not in [{lo}, {hi}]", n=gas.size, atm=sh["atm"])
    sc = R.scintillation(c["fc"], c["elev"], a["temperature"], a["relative_humidity"],
                         a["diameter_earth_antenna"], a["antenna_efficiency"])
    m.close("derived", np_of(s.scintillation_pathloss), sc, rtol=3e-3, atol=3e-3, msg="scintillation",
            atm=sh["atm"])
    # a fresh scenario configured directly with the final values
    if sh["los"] is not None:
        c2 = dict(c, level="scenario")
        f = make(ns, c2)
        f.set_topology(**tensors(ns, c, {k: sh[k] for k in W.TOPO_KEYS}),
                       los=ns.tf.constant(sh["los"]), doppler_enabled=sh["doppler_enabled"], **sh["atm"])
        for k in DERIVED:
            x, y = np.asarray(np_of(getattr(s, k))), np.asarray(np_of(getattr(f, k)))
            x, y = np.broadcast_arrays(x, y)
            m.close("fresh", x, y, rtol=1e-9 if double else 1e-6, atol=1e-9 if double else 1e-5, msg=k)
        m.close("fresh", np_of(s.los), np_of(f.los), msg="los")


def run(c, m):
    ns = boot()
    double = c["precision"] == "double"
    r = np.random.RandomState(c["seed"] % 2**31)
    obj = make(ns, c)
    s = W.scen(obj) if c["level"] == "model" else obj
    top = W.custom_topology(c, np)
    # a mandatory parameter is missing on first use
    part = {k: v for k, v in top.items() if k != c["reject"]}
    try:
        obj.set_topology(**tensors(ns, c, part))
        rejected = False
    except Exception:            # noqa: BLE001
        rejected = True
    m.check(rejected, "rejected", f"first set_topology without {c['reject']} was accepted")
    obj = make(ns, c)
    s = W.scen(obj) if c["level"] == "model" else obj
    sh = dict(top, los=c["los"], atm={}, doppler_enabled=c["doppler"])
    kw = tensors(ns, c, top)
    obj.set_topology(los=None if c["los"] is None else ns.tf.constant(c["los"]), **kw)
    verify(ns, c, m, s, sh, double)
    for op in c["ops"]:
        kw = {}
        if op == ["all"]:
            keys = list(W.TOPO_KEYS)
            c = dict(c, ut=int(r.choice([1, 2, 3])), batch=int(r.choice([1, 2, 3])))
            kw = W.custom_topology(dict(c, topo_seed=int(r.randint(2**31 - 1))), np)
        elif op != ["nothing"]:
            for k in op:
                kw[k] = draw(ns, c, r, k, sh)
                if k in W.TOPO_KEYS and k != "in_state" and r.rand() < .5:
                    kw[k] = sparse(r, sh[k], kw[k])
        atm = kw.pop("atm", {})
        before = np_of(s.los).copy()
        direct = {k: kw.pop(k) for k in ("doppler_enabled",) if k in kw}
        full = tensors(ns, c, kw)
        if c["level"] == "scenario":
            ret = s.set_topology(**full, **atm, **direct)
        else:
            if atm or direct:        # only the scenario takes these
                s.set_topology(**atm, **direct)
            obj.set_topology(**full)
        sh.update(kw)
        sh.update(direct)
        sh["atm"].update(atm)
        prop = {"ut_loc", "bs_loc", "in_state", "los"} & set(kw)
        if not prop:
            m.check(before.shape == np_of(s.los).shape and (before == np_of(s.los)).all(), "kept",
                    "link states redrawn without a propagation-relevant change")
        verify(ns, c, m, s, sh, double)
        if c["level"] == "model":
            with record() as tr:
                obj(c["T"], c["fs"])
            e = tr.last("cir")
            match.snapshot(m, "next generation", e, c, s, np_of)
            m.check(bool(e.topology.doppler_enabled) == bool(sh["doppler_enabled"]), "next generation", "Doppler")
            m.close("next generation", np_of(e.topology.velocities), sh["ut_velocities"], rtol=1e-6, atol=1e-6)
            m.close("next generation", e.topology.bs_height, sh["bs_loc"][:, 0, 2], rtol=1e-6)
            if not prop and op != ["nothing"]:
                pass
            txa, rxa = (c["ut_arr"], c["bs_arr"]) if c["dir"] == "uplink" else (c["bs_arr"], c["ut_arr"])
            match.cir(m, "next generation", e, c["fc"], txa, rxa, double)
    m.seen(c["scen"], c["dir"], T.band(c["fc"]), c["level"], c["ops"])
    m.sample(cfg=W.brief(c), level=c["level"], ops=c["ops"])
