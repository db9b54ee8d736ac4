"""C06: generated single-sector topologies respect the drop parameters."""
import math

import numpy as np

from rt import refmodel as R, workload as W
from rt.boot import boot
from rt.recorder import np_of

RULE = ("one distinct case = (scenario, parameters given or defaulted, their values "
        "and types, batch, users, precision)")
MIN_EVENTS = {"platform": 50, "cell": 50, "boresight azimuth": 500, "uniform": 50, "relocated": 100, "whole cell": 50}
DEFAULT = dict(isd=dict(dur=200., urb=500., sur=5000.), bs_height=600e3, elevation_angle=80.,
               min_ut_height=1.5, max_ut_height=1.5, min_ut_velocity=0., max_ut_velocity=0.)


def cases(tier, rng):
    n = {"quick": 200, "thorough": 4000}[tier]
    out = []
    for i in range(n):
        k = {}
        if rng.random() < .75:
            k["elevation_angle"] = W.rand_elev(rng)
        if rng.random() < .75:
            k["bs_height"] = W.rand_height(rng, sat_only=False)
        if rng.random() < .6:
            k["isd"] = rng.choice((1.0, 50.0, 200.0, 1732.0, 5000.0, 50000.0))
        if rng.random() < .6:
            k["min_ut_height"] = rng.choice((0., round(rng.uniform(0.5, 3), 2)))
            k["max_ut_height"] = round(k["min_ut_height"] + rng.choice((0.01, 1, 20)), 2)
        elif rng.random() < .5:      # one end of a range, the other one is the default
            k.update(rng.choice((dict(min_ut_height=0.), dict(min_ut_height=.7), dict(max_ut_height=1.7),
                                 dict(max_ut_height=30.))))
        if rng.random() < .6:
            k["min_ut_velocity"] = round(rng.choice((0., 1., 30.)), 2)
            k["max_ut_velocity"] = round(k["min_ut_velocity"] + rng.choice((0.1, 10., 300.)), 2)
        elif rng.random() < .3:
            k["max_ut_velocity"] = rng.choice((.5, 42.))
        if rng.random() < .3:
            k["indoor_probability"] = rng.choice((0.0, .5, 1.))
        if rng.random() < .25:       # integers are ordinary inputs
            for q in ("elevation_angle", "bs_height", "isd"):
                if q in k:
                    k[q] = int(round(k[q])) or 1
        out.append(dict(scen=rng.choice(W.SCEN), k=k, batch=rng.choice((1, 2, 8, 64)),
                        ut=rng.choice((1, 2, 5, 40)), precision=rng.choice(("single", "double", None)),
                        dirx=rng.random() < .5))
        if i % 10 == 0:
            out[-1]["batch"], out[-1]["ut"] = 100, 40
    for i in range({"quick": 24, "thorough": 400}[tier]):
        out.append(dict(kind=("relocate", "cell")[i % 2], batch=rng.choice((1, 2, 7)), ut=rng.choice((1, 3, 60)),
                        precision=rng.choice(("single", "double")), isd=rng.choice((1., 50., 500.)),
                        elev=rng.choice((10., 33., 60., 80.)), height=W.rand_height(rng, sat_only=False),
                        sector=rng.choice(("scalar", "users", "batch")), cell=rng.choice(("one", "users", "batch"))))
    out.append(dict(kind="interferers"))
    return out


def relocate(c, m):
    """Users rotated into their sector and moved to their cell."""
    ns = boot()
    r = np.random.RandomState(c["seed"] % 2**31)
    B, U, double = c["batch"], c["ut"], c["precision"] == "double"
    loc = r.uniform(-1, 1, (B, U, 2)) * 1e4
    sec = r.randint(0, 3, {"scalar": (), "users": (B, U), "batch": (B, 1)}[c["sector"]])
    cell = r.uniform(-1, 1, {"one": (2,), "users": (B, U, 2), "batch": (B, 1, 2)}[c["cell"]]) * 1e5
    got = ns.utils.relocate_uts(ns.tf.constant(loc, ns.tf.float64 if double else ns.tf.float32),
                                ns.tf.constant(sec, ns.tf.int32), ns.tf.constant(cell))
    z = (loc[..., 0] + 1j * loc[..., 1]) * np.exp(2j * np.pi / 3 * sec)
    want = np.stack([z.real, z.imag], -1) + cell
    m.shape("relocated", got, (B, U, 2))
    m.close("relocated", np_of(got).astype(float), want, atol=1e-6 if double else .2,
            msg=f"sectors {c['sector']}, cells {c['cell']}")
    m.seen("relocate", B, U, c["sector"], c["cell"], c["precision"])


def cell(c, m):
    """Users of a whole cell: one drop area, rotated by thirds of a turn about the cell's location."""
    ns = boot()
    B, U, double = c["batch"], c["ut"], c["precision"] == "double"
    t = ns.tf.float64 if double else ns.tf.float32
    f = lambda x: ns.tf.constant(x, t)
    at = np.random.RandomState(c["seed"] % 2**31).uniform(-1, 1, 2) * 1e4
    out = ns.utils.generate_uts_topology(B, U, "cell", f(at), f(c["height"]), f(c["elev"]), f(c["isd"]), f(1.5), f(2.5),
                                         f(0.), f(1.), f(3.), c["precision"])
    loc, ori, vel, ins = (np_of(x) for x in out)
    m.check(loc.dtype == ori.dtype == vel.dtype == t.as_numpy_dtype, "dtype")
    z = (loc[..., 0] - at[0] + 1j * (loc[..., 1] - at[1])).ravel().astype(complex)
    d = c["height"] / math.tan(math.radians(c["elev"]))
    r = 1e-12 if double else 2e-6
    tol = 4 * r * (d + 1e4 + c["isd"]) + c["height"] * (1e-15 if double else 3e-7) / math.sin(math.radians(c["elev"]))**2 \
        + 3e-7 * (not double) * c["height"]**2 / d
    m.check((np.abs(np.abs(z) - d) <= c["isd"] * .7072 + tol).all(), "whole cell",
            f"users {np.abs(z).min()}..{np.abs(z).max()} m from the location, expected {d}", n=z.size)
    if d > 10 * c["isd"]:
        # all users in the same sector-0 square after undoing a rotation
        k = np.round(np.angle(z / z[0]) / (2 * np.pi / 3))
        w = z * np.exp(-2j * np.pi / 3 * k)
        # the base cell's own sector is unknown: squares are axis-parallel for one of three rotations
        fits = [max(np.ptp((w * np.exp(2j * np.pi / 3 * q)).real), np.ptp((w * np.exp(2j * np.pi / 3 * q)).imag))
                <= c["isd"] + 4 * tol for q in range(3)]
        m.check(any(fits), "whole cell", "not one square drop area rotated by thirds of a turn", n=z.size)
        if z.size >= 120:
            for q in (-1, 0, 1):
                n = int((k == q).sum())
                m.check(abs(n / z.size - 1 / 3) < 7 * math.sqrt(2 / 9 / z.size), "whole cell", f"{n} of {z.size} in a sector")
    m.check((loc[..., 2] >= 1.5 - 1e-6).all() and (loc[..., 2] <= 2.5 + 1e-6).all() and not ins.any(), "user height")
    m.seen("cell", B, U, c["precision"], c["elev"], c["isd"])


def interferers(c, m):
    """The generator with interfering users."""
    ns = boot()
    try:
        t = ns.utils.gen_single_sector_topology_interferers(batch_size=3, num_ut=2, num_interferer=4, scenario="urb")
    except Exception as e:                           # noqa: BLE001
        m.check(False, f"interferers:{type(e).__name__}", f"gen_single_sector_topology_interferers raises {type(e).__name__}: {str(e)[:100]}")
        return
    ut, bs, uto, bso, vel, ins = (np_of(x) for x in t)
    m.shape("interferers", ut, (3, 6, 3)); m.shape("interferers", uto, (3, 6, 3)); m.shape("interferers", vel, (3, 6, 3))
    m.shape("interferers", ins, (3, 6)); m.shape("interferers", bs, (3, 1, 3)); m.shape("interferers", bso, (3, 1, 3))
    m.seen("interferers")


def run(c, m):
    if c.get("kind"):
        return {"relocate": relocate, "cell": cell, "interferers": interferers}[c["kind"]](c, m)
    ns = boot()
    t = ns.utils.gen_single_sector_topology(batch_size=c["batch"], num_ut=c["ut"],
                                            scenario=c["scen"], precision=c["precision"], **c["k"])
    ut, bs, uto, bso, vel, ins = t
    double = c["precision"] == "double"
    want = ns.tf.float64 if double else ns.tf.float32
    for x in (ut, bs, uto, bso, vel):
        m.check(x.dtype == want, "dtype")
    m.check(ins.dtype == ns.tf.bool, "dtype")
    ut, bs, uto, bso, vel, ins = (np_of(x) for x in t)
    ut, bs, uto, bso, vel = (x.astype(float) for x in (ut, bs, uto, bso, vel))
    B, U = c["batch"], c["ut"]
    m.shape("shape", ut, (B, U, 3)); m.shape("shape", bs, (B, 1, 3)); m.shape("shape", uto, (B, U, 3))
    m.shape("shape", bso, (B, 1, 3)); m.shape("shape", vel, (B, U, 3)); m.shape("shape", ins, (B, U))
    p = {k: c["k"].get(k, v[c["scen"]] if isinstance(v, dict) else v) for k, v in DEFAULT.items()}
    eps = 1e-12 if double else 1e-6
    m.close("platform", bs, np.broadcast_to([0, 0, p["bs_height"]], bs.shape), rtol=eps)
    m.close("platform orientation", bso, np.broadcast_to([0, np.pi / 2, 0], bso.shape), atol=1e-14 if double else 1e-6)
    m.check(not ins.any(), "outdoor", n=ins.size)
    # height and velocity ranges
    z, sp = ut[..., 2], np.hypot(vel[..., 0], vel[..., 1])
    m.check((z >= p["min_ut_height"] * (1 - eps)).all() and (z <= p["max_ut_height"] * (1 + eps)).all(),
            "user height", f"heights {z.min()}..{z.max()}", n=z.size, want=p)
    m.close("horizontal velocity", vel[..., 2], 0.0)
    m.check((sp >= p["min_ut_velocity"] * (1 - 3 * eps) - 1e-9).all() and
            (sp <= p["max_ut_velocity"] * (1 + 3 * eps) + 1e-9).all(),
            "speed", f"speeds {sp.min()}..{sp.max()}", n=sp.size, want=p)
    # one square cell, centre seen at the elevation angle
    d = p["bs_height"] / math.tan(math.radians(p["elevation_angle"]))
    x, y = ut[..., 0].ravel(), ut[..., 1].ravel()
    tol = eps * (abs(d) + p["isd"]) * 4 + 1e-9
    # the elevation angle in radians is rounded before its tangent is taken
    tol += p["bs_height"] * (1e-15 if double else 3e-7) / math.sin(math.radians(p["elevation_angle"])) ** 2
    # single precision: sqrt((h/sin)^2 - h^2) cancels near the zenith
    r = 1e-15 if double else 3e-7
    h = p["bs_height"]
    tol += min(r * h * h / max(d, 1e-9), math.sqrt(2 * r) * h)
    w = p["isd"] / 2
    m.check(np.ptp(x) <= 2 * w + tol and np.ptp(y) <= 2 * w + tol, "cell",
            f"extent {np.ptp(x)} x {np.ptp(y)}, inter-site distance {p['isd']}", n=x.size)
    lo = np.array([x.max() - w, y.max() - w]) - tol
    hi = np.array([x.min() + w, y.min() + w]) + tol
    near = np.hypot(*np.maximum(0, np.maximum(lo, -hi)))
    far = np.hypot(*np.maximum(np.abs(lo), np.abs(hi)))
    m.check(near <= d + 2 * tol and d <= far + 2 * tol, "centre",
            f"the cell centre lies between {near} and {far} m from the platform's ground "
            f"point, the elevation angle needs {d} m", params=p)
    if x.size >= 1000:
        # the drop is uniform: extent close to the cell, moments of the uniform law
        n = x.size
        for v, e in ((x, w), (y, w)):
            v = v - (v.max() + v.min()) / 2
            m.check(np.ptp(v) > 2 * e * (1 - 40 / n) - 8 * tol, "uniform", "cell not filled")
            if tol < 1e-3 * e:
                m.check(abs(v.mean()) < e * (7 / math.sqrt(3 * n) + 40 / n), "uniform", "mean off the centre")
                m.check(abs((v**2).mean() / (e * e / 3) - 1) < 7 * math.sqrt(0.8 / n) + 80 / n, "uniform",
                        "second moment is not that of a uniform drop")
        if tol < 1e-3 * w:
            m.check(abs(np.corrcoef(x, y)[0, 1]) < 7 / math.sqrt(n), "uniform", "x and y dependent")
        if p["max_ut_velocity"] > 0:
            ph = np.arctan2(vel[..., 1], vel[..., 0]).ravel()
            for q in (np.cos(ph), np.sin(ph), np.cos(2 * ph), np.sin(2 * ph)):
                m.check(abs(q.mean()) < 7 / math.sqrt(2 * n), "uniform", "velocity direction")
            s1 = (sp.ravel() - p["min_ut_velocity"]) / (p["max_ut_velocity"] - p["min_ut_velocity"])
            m.check(abs(s1.mean() - .5) < 7 / math.sqrt(12 * n), "uniform", "speed mean")
        if p["max_ut_height"] - p["min_ut_height"] > 0.1:
            s1 = (z.ravel() - p["min_ut_height"]) / (p["max_ut_height"] - p["min_ut_height"])
            m.check(abs(s1.mean() - .5) < 7 / math.sqrt(12 * n) + 1e-4, "uniform", "height mean")
    if U > 1 and p["isd"] > 1 and tol < 1e-3 * w:
        m.check(np.abs(np.diff(ut[:, :, :2], axis=1)).max() > 0, "users differ")
    # boresight of every user's array
    bore = R.rotation(uto)[..., :, 0]
    el = math.radians(p["elevation_angle"])
    at = 2e-6 if not double else 1e-10
    m.close("boresight tilt", bore[..., 2], math.sin(el), atol=at if double else at + 1e-6)
    rho = np.hypot(ut[..., 0], ut[..., 1])
    hor = np.hypot(bore[..., 0], bore[..., 1])
    ok = (rho > 1e-2) & (hor > 1e-3)
    with np.errstate(all="ignore"):
        dev = np.hypot(bore[..., 0] / hor + ut[..., 0] / rho, bore[..., 1] / hor + ut[..., 1] / rho)
    m.check((dev[ok] < (2e-5 + 1e-6 / np.maximum(hor[ok], 1e-3)) * (1e-6 if double else 1)).all(), "boresight azimuth",
            f"largest deviation {dev[ok].max() if ok.any() else 0}", n=int(ok.sum()))
    m.seen(c["scen"], sorted(c["k"].items()), B, U, c["precision"])
    m.sample(scen=c["scen"], k=c["k"], first_user=ut[0, 0], boresight=bore[0, 0])
