"""C28: the display functions show the configuration in use and change nothing.

The figures are drawn for real (Agg); the monitor reads positions, labels and
directions back from the drawn objects.
"""
import numpy as np

from rt import refmodel as R, workload as W
from rt.boot import boot, seed_all
from rt.recorder import np_of

RULE = "one distinct case = (display, configuration of model or array, topology, selected example and station)"
MIN_EVENTS = {"user position": 60, "station position": 30, "link state": 60, "axes": 300, "index": 60, "element": 60,
              "cut": 2000, "surface": 2000, "unchanged": 40, "panel": 20}


def cases(tier, rng):
    n = {"quick": 40, "thorough": 600}[tier]
    out = []
    for i in range(n):
        c = W.rand_cfg(rng, topo=rng.choice(("gen", "custom")), ut=rng.choice((1, 2, 5, 9)), bs=1,
                       ut_arr=W.rand_array(rng, 4), bs_arr=W.rand_array(rng, 4),
                       precision=rng.choice(("single", "double")))
        if c["topo"] == "custom":
            c["bs"] = rng.choice((1, 1, 2, 3))
            c["spread"] = rng.choice((50., 2e3, 2e4))
        c["kind"], c["picks"] = "topology", 3
        out.append(c)
    for i in range(n):
        fc = W.rand_fc(rng)
        out.append(dict(kind="array", fc=fc, arr=W.rand_array(rng, 16), precision=rng.choice(("single", "double"))))
    for i in range(n // 3):
        out.append(dict(kind="panel", rows=rng.randint(1, 5), cols=rng.randint(1, 5), pol=rng.choice(("single", "dual")),
                        vs=round(rng.uniform(.1, 2), 3), hs=round(rng.uniform(.1, 2), 3),
                        precision=rng.choice(("single", "double"))))
    return out


def unit(label):
    return {"[m]": 1., "[km]": 1e3}[label.split()[-1]]


def rgb(c):
    import matplotlib.colors as mc
    return mc.to_hex(c)


def topology(c, m):
    import matplotlib.pyplot as plt
    ns = boot()
    model, topo, ut, bs = W.build(ns, c)
    s = W.scen(model)
    r = np.random.RandomState(c["seed"] % 2**31)
    B, U, S = c["batch"], c["ut"], c["bs"]
    before = {k: np_of(getattr(s, k)) for k in ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "los")}
    for pick in range(c["picks"]):
        kw = {}
        if pick:
            kw = dict(bs_index=int(r.randint(S)), batch_index=int(r.randint(B)))
        b, k = kw.get("batch_index", 0), kw.get("bs_index", 0)
        plt.close("all")
        model.show_topology(**kw)
        m.need(len(plt.get_fignums()) == 1, "figures", f"{len(plt.get_fignums())} figures")
        ax = plt.gcf().axes[0]
        un = np.array([unit(ax.get_xlabel()), unit(ax.get_ylabel()), unit(ax.get_zlabel())])
        tol = 1e-9 if c["precision"] == "double" else 2e-6
        users, stations, los = before["ut_loc"][b].astype(float), before["bs_loc"][b].astype(float), before["los"][b, k]
        size = max(np.abs(users).max(), np.abs(stations).max())
        pts = {q.get_label(): np.stack([np.ma.getdata(v) for v in q._offsets3d], -1).astype(float).reshape(-1, 3) * un
               for q in ax.collections}
        txt = f"{c['scen']} {c['dir']} {kw}"
        m.close("station position", pts.get("BS"), stations, atol=tol * size, msg=txt)
        for name, sel in (("UT LoS", los), ("UT NLoS", ~los)):
            got = pts.get(name, np.zeros((0, 3)))
            m.check(len(got) == sel.sum(), "link state", f"{len(got)} users shown as {name}, {sel.sum()} are; {txt}", n=len(sel))
            if len(got) == sel.sum():
                m.close("user position", got, users[sel], atol=tol * size, msg=f"{name} {txt}")
        # indices beside the points
        want = [(str(i), p) for i, p in enumerate(stations)] + [(str(i), p) for i, p in enumerate(users)]
        have = [(t.get_text(), np.array(t.get_position_3d() if hasattr(t, "get_position_3d") else (*t.get_position(), t._z),
                                        float) * un) for t in ax.texts]
        m.check(len(have) == len(want), "index", f"{len(have)} labels for {len(want)} nodes")
        for t, p in want:
            m.check(any(t == q and np.abs(p - v).max() <= tol * size for q, v in have), "index",
                    f"no label {t} at {p}; {txt}")
        # local axes of every node: red x, green y, blue z
        every = np.concatenate([stations, users])
        delta = np.ptp(every / un, axis=0)
        if (delta > 1e-6).all():
            lines = [(rgb(q.get_color()), np.array(q.get_data_3d(), float)) for q in ax.lines]
            m.check(len(lines) == 3 * len(every), "axes", f"{len(lines)} lines for {len(every)} nodes")
            ori = np.concatenate([before["bs_orientations"][b], before["ut_orientations"][b]]).astype(float)
            for p, o in zip(every, ori):
                rot = R.rotation(o)
                for j, col in enumerate(("#ff0000", "#008000", "#0000ff")):
                    d = rot[:, j]
                    step = .1 * d / np.sqrt(((d / delta) ** 2).sum())
                    e = np.abs(np.array([np.abs(x.T - np.stack([p / un, p / un + step])).max(0) / np.abs(delta)
                                         for q, x in lines if q == col])).max(-1)
                    m.check(e.size and e.min() < 1e-3 + 4 * tol * size / un.min() / delta.min(), "axes",
                            f"axis {'xyz'[j]} of the node at {p} is not drawn along its direction; {txt}")
        m.seen(c["scen"], c["dir"], B, U, S, c["topo"], round(c["elev"]), tuple(un), k, b)
    plt.close("all")
    for q, v in before.items():
        m.check(np.array_equal(v, np_of(getattr(s, q))), "unchanged", f"show_topology changed {q}")
    m.sample(cfg=W.brief(c), units=un)


def cuts(c, m, surf, pattern):
    """The figures of an element's radiation pattern."""
    import matplotlib.pyplot as plt
    figs = [plt.figure(i) for i in plt.get_fignums()]
    m.need(len(figs) == 3, "figures", f"{len(figs)} figures of the pattern")
    for f, which in zip(figs[:2], "vh"):
        x, y = (np.asarray(v, float) for v in f.axes[0].lines[0].get_data())
        t, p = (x, np.zeros_like(x)) if which == "v" else (np.full_like(x, np.pi / 2), x)
        p_ = R.pattern_power(pattern, t, p)
        inside = np.abs(np.sin(t) * np.cos(p)) > 1e-5
        with np.errstate(divide="ignore"):
            want = 10 * np.log10(p_)
        # (nulls of the aperture: a logarithm of next to nothing)
        ok = inside & (p_ > 1e-6)
        m.check(len(x) >= 91 and np.ptp(x) > (3.14 if which == "v" else 6.28) - 1e-3, "cut", f"cut {which} over {np.ptp(x)}")
        m.close("cut", y[ok], want[ok], atol=.02, msg=f"{pattern}, cut {which}, dB")
        if (inside & (p_ == 0)).any():
            m.check((y[inside & (p_ == 0)] < -60).all(), "cut", "radiates behind the aperture")
        m.check(f.axes[0].get_legend().get_texts()[0].get_text() == pattern, "cut", "legend")
    m.need(len(surf) == 1 and len(figs[2].axes[0].collections) == 1, "surface", f"{len(surf)} surfaces drawn")
    v = np.stack([np.asarray(q, float) for q in surf[0]], -1).reshape(-1, 3)
    rad = np.linalg.norm(v, axis=-1)
    keep = (rad > 1e-3) & (np.hypot(v[:, 0], v[:, 1]) > 1e-4 * rad)   # (no azimuth at the poles)
    v, rad = v[keep], rad[keep]
    t, p = np.arccos(np.clip(v[:, 2] / rad, -1, 1)), np.arctan2(v[:, 1], v[:, 0])
    g = R.pattern_power(pattern, t, p)
    if pattern == "aperture":       # drawn in a logarithmic domain
        sel = np.isfinite(rad) & (g > 1e-3)
        o = np.argsort(g[sel])
        m.check((np.diff(rad[sel][o]) >= -.5).all() and sel.sum() > 20, "surface", "not increasing with the gain", n=int(sel.sum()))
    else:
        m.close("surface", rad, g, rtol=5e-3, atol=1e-3, msg=f"{pattern} surface")
    m.seen("pattern", pattern, c["precision"])


def array(c, m):
    import matplotlib.pyplot as plt
    ns = boot()
    a = c["arr"]
    arr = W.make_array(ns, a, c["fc"], c["precision"])
    pos, pol = R.element_positions(a, c["fc"])
    before = np_of(arr.ant_pos)
    plt.close("all")
    arr.show()
    m.need(len(plt.get_fignums()) == 1, "figures", "one figure")
    ax = plt.gcf().axes[0]
    tol = 1e-5 * np.abs(pos).max() + 1e-9
    lines = ax.lines
    m.check(len(lines) == len(set(pol)), "element", f"{len(lines)} polarizations drawn of {len(set(pol))}")
    for q, l in enumerate(lines):
        got = np.stack([np.asarray(v, float) for v in l.get_data()], -1)
        want = pos[pol == q][:, 1:]
        m.check(got.shape == want.shape, "element", f"{len(got)} elements drawn of {len(want)}")
        if got.shape == want.shape:
            far = np.abs(got[:, None] - want[None]).max(-1)
            m.check((far.min(0) <= tol).all() and (far.min(1) <= tol).all(), "element",
                    f"polarization {q + 1}: drawn {got[:3]}, the array has {want[:3]}", n=len(want))
    # numbers: the index of the element of the first polarization, from one
    for t in ax.texts:
        if not t.get_text().isdigit():
            continue
        i, p = int(t.get_text()) - 1, np.asarray(t.xy if hasattr(t, "xy") else t.get_position(), float)
        m.check(0 <= i < len(pos) and pol[i] == 0 and np.abs(pos[i, 1:] - p).max() <= tol, "element",
                f"number {i + 1} is drawn at {p}, element {i} is elsewhere")
    nums = sorted(int(t.get_text()) - 1 for t in ax.texts if t.get_text().isdigit())
    m.check(nums == sorted(np.nonzero(pol == 0)[0]), "element", f"numbers {nums[:8]}", n=len(nums))
    plt.close("all")
    from mpl_toolkits.mplot3d import Axes3D
    surf, old = [], Axes3D.plot_surface

    def plot_surface(self, X, Y, Z, *q, **k):
        surf.append((X, Y, Z))
        return old(self, X, Y, Z, *q, **k)
    Axes3D.plot_surface = plot_surface
    try:
        arr.show_element_radiation_pattern()
    finally:
        Axes3D.plot_surface = old
    cuts(c, m, surf, a["pattern"])
    plt.close("all")
    m.check(np.array_equal(before, np_of(arr.ant_pos)), "unchanged", "the display moved the elements")
    m.seen(a["kind"], a["pol"], a["ptype"], a["pattern"], len(pos), c["precision"])
    m.sample(arr=a)


def panel(c, m):
    import matplotlib.pyplot as plt
    ns = boot()
    p = ns.t.AntennaPanel(c["rows"], c["cols"], c["pol"], c["vs"], c["hs"], precision=c["precision"])
    plt.close("all")
    p.show()
    ax = plt.gcf().axes[0]
    y = (np.arange(c["cols"]) - (c["cols"] - 1) / 2) * c["hs"]
    z = -(np.arange(c["rows"]) - (c["rows"] - 1) / 2) * c["vs"]
    want = np.array([(a, b) for a in y for b in z])
    m.check(len(ax.lines) == (2 if c["pol"] == "dual" else 1), "panel", "polarizations drawn")
    for l in ax.lines:
        got = np.stack([np.asarray(v, float) for v in l.get_data()], -1)
        m.close("panel", got, want, atol=1e-5, msg=f"{c['rows']}x{c['cols']} panel, in wavelengths")
    for i, t in enumerate(sorted((t for t in ax.texts if t.get_text().isdigit()), key=lambda t: int(t.get_text()))):
        m.close("panel", np.asarray(t.xy, float), want[i], atol=1e-5, msg="number of an element")
    plt.close("all")
    m.seen("panel", c["rows"], c["cols"], c["pol"], c["precision"])


def run(c, m):
    import matplotlib
    matplotlib.use("Agg", force=True)
    {"topology": topology, "array": array, "panel": panel}[c["kind"]](c, m)
