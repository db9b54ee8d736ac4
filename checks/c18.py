"""C18: the time axis of the channel is the Doppler of users and platform, nothing else.

Decided from model outputs alone (static users: one common rotation; metamorphic
relations between sampling frequencies, velocities and flags under one seed) and,
for moving users, from every path coefficient against the ray superposition.
"""
import math

import numpy as np

from rt import match, refmodel as R, stats as S, workload as W
from rt.boot import boot, seed_all
from rt.recorder import np_of, record

RULE = "one distinct case = (kind, scenario, band, direction, height, Doppler setting, precision)"
MIN_EVENTS = {"common rotation": 200, "bound": 150, "no platform Doppler": 100, "time invariant": 40,
              "helper": 100, "ray rotation:path": 500, "time axis": 20, "speed axis": 10,
              "start is independent of motion": 20, "random direction": 3}
ANT = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")


def cases(tier, rng):
    k = {"quick": 1, "thorough": 12}[tier]
    out = []
    H = (600e3, 600e3, 599.9e3, 601e3, 1200e3, 35786e3, 20e3, 159e3, 300e3)
    for i in range(60 * k):
        n = rng.choice((1, 2, 3, 4))
        c = W.rand_cfg(rng, topo="custom", batch=n, height=600e3, T=rng.choice((2, 3, 6)),
                       fs=rng.choice((1e6, 3e6, 30.72e6)), precision=rng.choice(("double", "double", "single")))
        c["heights"] = [rng.choice(H) if rng.random() < .7 else W.rand_height(rng, False) for _ in range(n)]
        c["how"] = rng.choice(("constructor", "set_topology"))
        c["vmax"] = 0.
        out.append(dict(kind="static", cfg=c))
    for i in range(40 * k):
        n = rng.choice((1, 2, 3))
        c = W.rand_cfg(rng, topo="custom", batch=n, height=600e3, T=rng.choice((2, 3, 4)),
                       fs=10 ** rng.uniform(1, 7.5), precision=rng.choice(("double", "double", "single")))
        c["heights"] = [rng.choice(H) for _ in range(n)]
        c["vmax"] = rng.choice((1., 50., 400., 8000.))
        if c["precision"] == "single":
            c["fs"] = max(c["fs"], 2e4)
        out.append(dict(kind="moving", cfg=c))
    # long records: the axis neither wraps nor drifts
    for i in range(10 * k):
        c = W.rand_cfg(rng, topo="custom", batch=rng.choice((1, 2)), ut=rng.choice((1, 2)), height=600e3,
                       T=rng.choice((65, 129, 300, 513, 1025)), fs=rng.choice((2e5, 3e6, 30.72e6)),
                       precision="double", doppler=True)
        c["heights"] = [rng.choice((600e3, 601e3, 1200e3)) for _ in range(c["batch"])]
        c["ut_arr"] = c["bs_arr"] = ANT
        c["how"] = rng.choice(("constructor", "set_topology"))
        c["vmax"] = rng.choice((0., 50., 8000.)) if i % 2 else 0.
        out.append(dict(kind="moving" if i % 2 else "static", cfg=c))
    for i in range(20 * k):
        c = W.rand_cfg(rng, topo="custom", batch=rng.choice((1, 2)), precision="double",
                       fs=rng.choice((1e3, 1e5, 1e6)), height=rng.choice((600e3, 20e3, 1200e3)), doppler=True)
        c["vmax"] = rng.choice((5., 300.))
        out.append(dict(kind="axis", cfg=c, f=rng.choice((2, 3, 4))))
    for i in range(3 * k):
        c = W.rand_cfg(rng, topo="custom", batch=1500, ut=1, height=rng.choice((600e3, 1000e3)), T=2,
                       elev=round(rng.uniform(10., 88.), 2), fs=30.72e6, doppler=True, precision="double")
        c["vmax"] = 0.
        c["ut_arr"] = c["bs_arr"] = ANT
        out.append(dict(kind="law", cfg=c))
    out += [dict(kind="helper", seed=rng.randrange(1, 2**31)) for _ in range(2 * k)]
    return out


def make(ns, c, vel=None, doppler=None, seed=None):
    """Model with its topology; the Doppler flag by either public route."""
    d = c["doppler"] if doppler is None else doppler
    late = c.get("how") == "set_topology"
    model, _, _ = W.make_model(ns, dict(c, doppler=(not d) if late else d))
    t = W.topology(ns, c)
    if vel is not None:
        t["ut_velocities"] = t["ut_velocities"] * vel
    model.set_topology(los=c["los"], **t)
    if late:
        W.scen(model).set_topology(doppler_enabled=d)
    if seed is not None:             # every random quantity drawn after the seed
        seed_all(seed)
        model.set_topology(los=c["los"], **t)
    return model


def omega_max(c, h):
    return 2 * math.pi * c["fc"] / R.C0 * float(R.orbital_speed(h)) * math.cos(math.radians(c["elev"]))


def rotation(h, fs):
    """Angular frequency of the common rotation from the first two samples."""
    z = (h[..., 1] * np.conj(h[..., 0])).sum()
    return float(np.angle(z)) * fs


def static(ns, m, c):
    model = make(ns, c)
    ax = 0
    hs = [c["heights"][i % len(c["heights"])] for i in range(c["batch"])]
    seen = []
    for call in range(2):
        a = np_of(model(c["T"], c["fs"])[0]).astype(complex)
        for b, hgt in enumerate(hs):
            h = a[b]
            p0 = np.abs(h[..., 0]).max()
            if not p0 > 0:
                m.count("dark example")
                continue
            # scale each path so that weak ones are judged too
            s = np.abs(h[..., :1])
            on = (s > 1e-6 * p0)[..., 0]
            q = h[on] / s[on]
            tol = 1e-9 if c["precision"] == "double" else 3e-5
            # single precision accumulates rounding over rays that nearly cancel
            if c["precision"] == "single":
                on = (s > 1e-2 * p0)[..., 0]
                q = h[on] / s[on]
                tol = 2e-3
            moving = c["doppler"] and hgt >= 600e3
            w = rotation(h, c["fs"])
            if not moving:
                m.close("no platform Doppler" if c["doppler"] else "time invariant", q,
                        np.repeat(q[:, :1], c["T"], 1), atol=tol,
                        msg=f"height {hgt}, Doppler {c['doppler']}, {c['precision']}")
                continue
            wm = omega_max(c, hgt)
            t = np.arange(c["T"]) / c["fs"]
            ph = 4e-7 * wm * t.max() if c["precision"] == "single" else 1e-13 * wm * t.max()
            m.close("common rotation", q, q[:, :1] * np.exp(1j * w * t), atol=tol * c["T"] + ph * 3 + 1e-8,
                    msg=f"example {b}, height {hgt}")
            slack = (tol * c["fs"] if c["precision"] == "single" else 1e-7 * c["fs"]) + 1e-6 * wm
            m.check(abs(w) <= wm + slack, "bound", f"Doppler {w / 2 / math.pi:.1f} Hz above the orbital limit "
                    f"{wm / 2 / math.pi:.1f} Hz at {c['elev']} deg, {hgt} m")
            seen.append((call, b, w))
            m.count("platform Doppler observed")
    ws = [round(w, 3) for _, _, w in seen]
    if len(ws) > 1 and c["precision"] == "double" and omega_max(c, 36e6) > 1e3:
        m.check(len(set(ws)) == len(ws), "bound", f"examples or calls share one platform Doppler {ws}")


def moving(ns, m, c):
    model = make(ns, c)
    with record() as tr:
        model(c["T"], c["fs"])
    e = tr.last("cir")
    double = c["precision"] == "double"
    ul = c["dir"] == "uplink"
    txa, rxa = (c["ut_arr"], c["bs_arr"]) if ul else (c["bs_arr"], c["ut_arr"])
    match.snapshot(m, "motion", e, c, W.scen(model), np_of)
    span = (c["T"] - 1) / c["fs"]
    w = 2 * np.pi * c["fc"] / R.C0 * (8000. + c["vmax"] * 1.8) * span
    match.cir(m, "ray rotation", e, c["fc"], txa, rxa, double,
              tol=1e-8 + 1e-14 * w if double else 3e-3 + 4e-7 * w)
    m.close("bound", np.abs(np.asarray(e.topology.sat_speed, float).ravel()) <=
            np.array([float(R.orbital_speed(h)) for h in
                      [c["heights"][i % len(c["heights"])] for i in range(c["batch"])]])
            * math.cos(math.radians(c["elev"])) * (1 + 1e-5) + 1e-3,
            np.ones(c["batch"], bool), msg="platform speed along the link")


def axis(ns, m, c, f):
    """Same seed, other time axis, velocity or flag: exact relations."""
    def gen(T, fs, vel=1., doppler=None):
        model = make(ns, c, vel=vel, doppler=doppler, seed=7)
        return np_of(model(T, fs)[0])
    n = 3
    a = gen((n - 1) * f + 1, c["fs"])
    b = gen(n, c["fs"] / f)
    s = np.abs(a).max(axis=tuple(range(1, a.ndim)), keepdims=True)
    s[s == 0] = 1
    m.close("time axis", a[..., ::f] / s, b / s, atol=1e-6, msg=f"every {f}th sample at {c['fs']} Hz")
    d0 = gen(n, c["fs"], doppler=False)
    d1 = gen(n, c["fs"] * f, vel=float(f), doppler=False)
    m.close("speed axis", d0 / s, d1 / s, atol=1e-6, msg="speed times sampling interval")
    # the first sample is at time zero: motion has no effect
    st = gen(n, c["fs"], vel=0., doppler=False)
    for x, what in ((a, "all"), (d0, "user"), (gen(1, c["fs"]), "one sample")):
        m.close("start is independent of motion", x[..., 0] / s[..., 0], st[..., 0] / s[..., 0], atol=1e-6, msg=what)
    m.close("time invariant", st / s, np.repeat(st[..., :1], n, -1) / s, atol=1e-12, msg="nothing moves")
    # platform Doppler multiplies the user's
    if c["height"] >= 600e3:
        z, full = gen(n, c["fs"], vel=0.), gen(n, c["fs"])
        for i in range(a.shape[0]):
            rot = (z[i] * np.conj(z[i][..., :1])).sum(axis=tuple(range(z[i].ndim - 1)))
            rot = rot / np.maximum(np.abs(rot), 1e-300)
            m.close("common rotation", full[i] / s[i], d0[i] * rot / s[i], atol=1e-6, msg="on top of the user's")
    m.count("axis relations")


def law(ns, m, c):
    model = make(ns, c)
    a = np_of(model(2, c["fs"])[0])
    z = (a[..., 1] * np.conj(a[..., 0])).reshape(a.shape[0], -1).sum(-1)
    x = np.angle(z) * c["fs"] / omega_max(c, c["height"])
    m.check(np.abs(x).max() <= 1 + 1e-6, "bound", f"largest share of the orbital Doppler {np.abs(x).max()}", n=x.size)
    u = np.sort(np.arccos(np.clip(x, -1, 1)) / math.pi)      # uniform when the orbit direction is
    n = len(u)
    i = np.arange(1, n + 1)
    D = max(np.max(i / n - u), np.max(u - (i - 1) / n)) * math.sqrt(n)
    m.check(D < 4.0, "random direction", f"share of the orbital Doppler is not cos of a uniform angle: D {D:.2f}, "
            f"mean {x.mean():.3f}, mean square {np.mean(x ** 2):.3f}, elevation {c['elev']}, height {c['height']}")


def helper(ns, m, c):
    rng = np.random.RandomState(c["seed"] % 2**31)
    for h in (0., 8e3, 160e3, 600e3, 1200e3, 35786e3, *rng.uniform(1e3, 4e7, 20)):
        v = float(R.orbital_speed(h))
        m.close("helper", float(ns.utils.compute_satellite_speed(float(h))), v, rtol=3e-7, msg=f"speed at {h}")
        m.close("helper", float(ns.utils.compute_satellite_speed(ns.tf.constant(h, ns.tf.float64))), v,
                rtol=1e-12, msg=f"speed at {h}")
        el, fc = float(rng.uniform(10, 90)), float(rng.uniform(1.9e9, 40e9))
        sh = v / R.C0 * R.R_E / (R.R_E + h) * math.cos(math.radians(el)) * fc
        got = float(ns.utils.compute_stallite_doppler(ns.tf.constant(h, ns.tf.float64), el, fc))
        m.close("helper", got - fc, sh, rtol=1e-9, atol=1e-4, msg=f"maximum Doppler at {h} m, {el} deg, {fc} Hz")
        got = float(ns.utils.compute_stallite_doppler(float(h), el, fc))
        m.close("helper", got - fc, sh, rtol=1e-5, atol=3e-7 * fc, msg=f"maximum Doppler at {h} m, {el} deg")
    hs = np.array([600e3, 1200e3, 2e7])
    m.close("helper", np_of(ns.utils.compute_satellite_speed(ns.tf.constant(hs, ns.tf.float32))),
            R.orbital_speed(hs), rtol=1e-6, msg="vector of heights")
    # Kepler's third law, Earth's surface speed
    m.close("helper", 2 * math.pi * (R.R_E + 35786e3) /
            float(ns.utils.compute_satellite_speed(ns.tf.constant(35786e3, ns.tf.float64))), 86164., rtol=1e-3,
            msg="a geostationary orbit takes a day")


def run(c, m):
    ns = boot()
    k = c["kind"]
    if k == "helper":
        helper(ns, m, c)
    else:
        cfg = c["cfg"]
        if k == "axis":
            axis(ns, m, cfg, c["f"])
        else:
            dict(static=static, moving=moving, law=law)[k](ns, m, cfg)
        m.seen(k, cfg["scen"], cfg["fc"] > 1e10, cfg["dir"], tuple(cfg.get("heights", [cfg["height"]])),
               cfg["doppler"], cfg["precision"], cfg["T"])
        m.sample(kind=k, cfg=W.brief(cfg), doppler=cfg["doppler"])
