"""C04: deterministic link-budget terms = ITU / 3GPP formulas."""
import math

import numpy as np

from rt import refmodel as R, tables as T, workload as W
from rt.boot import boot
from rt.recorder import np_of

RULE = ("one distinct case = (scenario, direction, carrier, elevation, height, LOS "
        "request, atmosphere set or default, precision)")
MIN_EVENTS = {"basic": 200, "gas": 200, "scintillation": 200, "entry": 50}
ASSUMPTIONS = ["gas absorption accepted between the published variants of two P.676 "
               "water-vapour constants (0.2 % apart)"]


def cases(tier, rng):
    n = {"quick": 160, "thorough": 3000}[tier]
    out = []
    for i in range(n):
        c = W.rand_cfg(rng, sf=False, topo="custom", batch=rng.choice((1, 2, 3)),
                       ut=rng.choice((1, 3)), height=W.rand_height(rng, sat_only=False),
                       precision=rng.choice(("single", "double", "double")),
                       bs=rng.choice((1, 2)))
        c["ut_arr"] = c["bs_arr"] = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")
        c["heights"] = [c["height"], 7e5, 2e4][:c["batch"]]
        if rng.random() < .7:
            c["atm"] = dict(temperature=round(rng.uniform(230, 315), 2),
                            atmospheric_pressure=round(rng.uniform(850, 1080), 1),
                            water_vapor_density=round(rng.uniform(0.1, 25), 2),
                            relative_humidity=round(rng.uniform(0, 100), 1),
                            diameter_earth_antenna=rng.choice((.1, .5, 1.2, 3.6, 10., 40.)),
                            antenna_efficiency=round(rng.uniform(.05, 1), 2))
            for k in list(c["atm"]):
                if rng.random() < .3:
                    del c["atm"][k]
                elif rng.random() < .2:
                    c["atm"][k] = type(c["atm"][k])(round(c["atm"][k])) or 1
        out.append(c)
    return out


SCN = {"dur": "DenseUrbanScenario", "urb": "UrbanScenario", "sur": "SubUrbanScenario"}


def run(c, m):
    ns = boot()
    ut = W.make_array(ns, c["ut_arr"], c["fc"], c["precision"])
    s = getattr(ns.t, SCN[c["scen"]])(
        c["fc"], ut, ut, c["dir"], c["elev"], enable_pathloss=True,
        enable_shadow_fading=False, precision=c["precision"])
    topo = W.topology(ns, c)
    atm = c.get("atm", {})
    s.set_topology(los=c["los"], **topo, **atm)
    double = c["precision"] == "double"
    los = np_of(s.los)
    d3 = R.slant_range(np_of(s.bs_loc)[:, :, 2].astype(float), c["elev"])[:, :, None]
    det = np.broadcast_to(R.fspl(c["fc"], d3), los.shape) + T.per_link(c, "CL", los)
    m.close("basic", np_of(s.basic_pathloss), det,
            atol=1e-8 if double else 2e-4 + 10.0 / d3.min())
    g = dict(T=atm.get("temperature", 273), p=atm.get("atmospheric_pressure", 1020),
             rho=atm.get("water_vapor_density", 7.5))
    lo, hi = R.gas_interval(c["fc"], c["elev"], **g)
    sc = R.scintillation(c["fc"], c["elev"], g["T"], atm.get("relative_humidity", 50),
                         atm.get("diameter_earth_antenna", 3.6), atm.get("antenna_efficiency", .5))
    gas = np.broadcast_to(np_of(s.gas_pathloss).astype(float), los.shape)
    r = 1e-7 if double else 1e-4
    m.check(((gas >= lo * (1 - r) - 1e-9) & (gas <= hi * (1 + r) + 1e-9)).all(), "gas",
            f"gas loss {gas.ravel()[:2]}, expected [{lo}, {hi}]", n=gas.size)
    # near the point where the averaging factor vanishes the square root
    # amplifies rounding
    sci = np.broadcast_to(np_of(s.scintillation_pathloss).astype(float), los.shape)
    m.close("scintillation", sci, sc, rtol=1e-6 if double else 2e-3,
            atol=1e-6 if double else 2e-3)
    m.close("entry", np.broadcast_to(np_of(s.entry_pathloss), los.shape), 0.0)
    for name, v in (("gas", gas), ("scintillation", sci), ("basic", np_of(s.basic_pathloss))):
        m.check(np.isfinite(v).all() and (v >= 0).all(), "finite non-negative", name)
    m.seen(c["scen"], c["dir"], c["fc"], c["elev"], c["height"], c["los"], bool(atm), c["precision"])
    m.sample(cfg=W.brief(c), atm=atm, gas=gas.ravel()[:1], scint=sci.ravel()[:1], want=sc)
