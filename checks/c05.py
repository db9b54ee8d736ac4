"""C05: link geometry follows from the positions, per example and per link."""
import numpy as np

from rt import refmodel as R, workload as W
from rt.boot import boot
from rt.recorder import np_of

RULE = ("one distinct case = (elevation, heights, spread, user and station counts, "
        "hazards (beneath, co-located, quadrant), direction, precision)")
MIN_EVENTS = {"distance_3d": 100, "los_aod": 100, "isolation": 50, "reverse": 100}
SCN = {"dur": "DenseUrbanScenario", "urb": "UrbanScenario", "sur": "SubUrbanScenario"}


def cases(tier, rng):
    n = {"quick": 120, "thorough": 2500}[tier]
    out = []
    for i in range(n):
        c = W.rand_cfg(rng, topo="custom", batch=rng.choice((1, 2, 3, 4)),
                       ut=rng.choice((1, 2, 3, 6)), bs=rng.choice((1, 1, 2, 3)),
                       height=W.rand_height(rng, sat_only=False),
                       precision=rng.choice(("single", "double")), pl=True, sf=False)
        c["ut_arr"] = c["bs_arr"] = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")
        c["heights"] = [c["height"], W.rand_height(rng, False), 2e4, 7e5][:c["batch"]]
        c["spread"] = rng.choice((0.0, 5.0, 300.0, 2e4, 3e6))
        for h in ("colocated", "beneath"):
            c[h] = rng.random() < .25
        c["bs_off"] = rng.random() < .5
        c["bs_dh"] = rng.random() < .6
        out.append(c)
    return out


def scenario(ns, c):
    ut = W.make_array(ns, c["ut_arr"], c["fc"], c["precision"])
    return getattr(ns.t, SCN[c["scen"]])(
        c["fc"], ut, ut, c["dir"], c["elev"], enable_pathloss=True,
        enable_shadow_fading=False, precision=c["precision"])


PROPS = ("distance_2d", "distance_3d", "los_aod", "los_aoa", "los_zod", "los_zoa",
         "matrix_ut_distance_2d")


def run(c, m):
    ns = boot()
    s = scenario(ns, c)
    topo = W.topology(ns, c)
    s.set_topology(los=c["los"], **topo)
    ut, bs = (np_of(topo[k]).astype(float) for k in ("ut_loc", "bs_loc"))
    g = R.geometry(ut, bs, c["elev"])
    double = c["precision"] == "double"
    span = max(np.abs(ut).max(), np.abs(bs).max())
    e = span * (1e-14 if double else 3e-7)
    got = {k: np_of(getattr(s, k)).astype(float) for k in PROPS}
    shape = (c["batch"], c["bs"], c["ut"])
    for k in PROPS[:-1]:
        m.shape("shape", got[k], shape)
    m.shape("shape", got[PROPS[-1]], (c["batch"], c["ut"], c["ut"]))
    rt = 1e-12 if double else 5e-7
    m.close("distance_2d", got["distance_2d"], g["d2"], rtol=rt, atol=2 * e)
    m.close("matrix_ut_distance_2d", got["matrix_ut_distance_2d"], g["uu"], rtol=rt, atol=2 * e)
    # R_E*sin(el) and the square root cancel for low platforms
    m.close("distance_3d", got["distance_3d"], g["d3"], rtol=rt, atol=1e-7 if double else 2.0)
    # azimuth is undefined beneath the platform
    far = g["d2"] > (1e-3 if double else max(100 * e, 1e-3))
    at = 1e-9 if double else 2e-4
    with np.errstate(all="ignore"):
        da = at + np.degrees(4 * e / np.maximum(g["d2"], 1e-9))
    for k, w in (("los_aod", "aod"), ("los_aoa", "aoa")):
        d = np.mod(got[k] - g[w] + 180, 360) - 180
        m.check((np.abs(d) <= da)[far].all(), k, f"max error {np.abs(d)[far].max() if far.any() else 0}",
                n=int(far.sum()), got=got[k], want=g[w])
    m.close("los_zod", got["los_zod"], g["zod"], atol=max(at, np.degrees(8 * e / bs[..., 2].min())))
    m.close("los_zoa", got["los_zoa"], g["zoa"], atol=max(at, np.degrees(8 * e / bs[..., 2].min())))
    # the arrival direction is the exact reverse of the departure direction
    rad = {k: np.radians(got[k]) for k in PROPS[2:6]}
    u = R.unit(rad["los_zod"], rad["los_aod"]) + R.unit(rad["los_zoa"], rad["los_aoa"])
    m.close("reverse", u, 0.0, atol=1e-12 if double else 3e-6)
    for k in PROPS[2:4]:
        m.check(((got[k] >= 0) & (got[k] <= 360)).all(), "azimuth range", k, n=got[k].size)
        m.count("azimuths at 360", (got[k] == 360).sum())
    for k in PROPS[4:6]:
        m.check(((got[k] >= 0) & (got[k] <= 180)).all(), "zenith range", k, n=got[k].size)
    # users are outdoors: no part of the way is indoors
    for d in ("2d", "3d"):
        m.close("indoor part", np_of(getattr(s, f"distance_{d}_in")), np.zeros(shape), atol=0.0, msg=d)
        m.close("outdoor part", np_of(getattr(s, f"distance_{d}_out")).astype(float), got[f"distance_{d}"],
                rtol=rt, msg=d)
    # isolation: any single link on its own gives the same values
    rng = np.random.RandomState(c["seed"] % 2**31)
    for _ in range(3):
        b, i, j = rng.randint(c["batch"]), rng.randint(c["bs"]), rng.randint(c["ut"])
        t2 = dict(ut_loc=topo["ut_loc"][b:b + 1, j:j + 1], bs_loc=topo["bs_loc"][b:b + 1, i:i + 1],
                  ut_orientations=topo["ut_orientations"][b:b + 1, j:j + 1],
                  bs_orientations=topo["bs_orientations"][b:b + 1, i:i + 1],
                  ut_velocities=topo["ut_velocities"][b:b + 1, j:j + 1],
                  in_state=topo["in_state"][b:b + 1, j:j + 1])
        s2 = scenario(ns, c)
        s2.set_topology(los=c["los"], **t2)
        for k in PROPS[:-1]:
            m.close("isolation", np_of(getattr(s2, k))[0, 0, 0], np_of(getattr(s, k))[b, i, j],
                    rtol=1e-12 if double else 1e-6, atol=1e-9 if double else 1e-4, msg=k)
    m.seen(c["scen"], c["dir"], c["elev"], tuple(c["heights"]), c["spread"], c["ut"], c["bs"],
           c["beneath"], c["colocated"], c["precision"])
    for q in np.unique(np.floor(g["aod"] / 90).astype(int)):
        m.count(f"links in quadrant {q}", (np.floor(g["aod"] / 90) == q).sum())
    m.sample(cfg=W.brief(c), zod=got["los_zod"].ravel()[:2], aod=got["los_aod"].ravel()[:2])
