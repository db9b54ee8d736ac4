"""C16: element positions, polarization indices and slants of every array."""
import numpy as np

from rt import refmodel as R, workload as W
from rt.boot import boot
from rt.recorder import np_of

RULE = "one distinct case = (kind, sizes, polarization type, default or given spacings, precision)"
MIN_EVENTS = {"position": 3000, "index partition": 500, "co-located": 300, "slant": 300,
              "attribute": 1000, "shorthand": 60, "rejected": 120, "accepted": 120, "centred": 300,
              "panel": 200, "frame": 200}


def rand_big(rng):
    pol = rng.choice(("single", "dual"))
    a = dict(kind=rng.choice(("Antenna", "AntennaArray", "PanelArray", "PanelArray")), pol=pol,
             ptype=rng.choice(("V", "H") if pol == "single" else ("VH", "cross")),
             pattern=rng.choice(W.PATTERNS))
    if a["kind"] == "Antenna":
        return a
    a["rows"], a["cols"] = rng.choice((1, 1, 2, 3, 4, 5, 7, 16)), rng.choice((1, 1, 2, 3, 4, 6, 8))
    r, c = a["rows"], a["cols"]
    if rng.random() < .7:
        a["vs"] = rng.choice((.5, round(rng.uniform(.05, 3), 3)))
    if rng.random() < .7:
        a["hs"] = rng.choice((.5, round(rng.uniform(.05, 3), 3)))
    if a["kind"] == "PanelArray":
        a["prow"], a["pcol"] = rng.choice((1, 1, 2, 3, 4)), rng.choice((1, 1, 2, 3, 5))
        if rng.random() < .6:
            a["pvs"] = round((r - 1) * a.get("vs", .5) + rng.choice((.001, .3, 2., 11.)), 4)
        if rng.random() < .6:
            a["phs"] = round((c - 1) * a.get("hs", .5) + rng.choice((.001, .3, 2., 11.)), 4)
    return a


def cases(tier, rng):
    n = {"quick": 40, "thorough": 500}[tier]
    return [dict(arrs=[dict(a=rand_big(rng), fc=W.rand_fc(rng),
                            precision=rng.choice(("single", "double"))) for _ in range(12)],
                 rej=rng.randrange(2**31)) for _ in range(n)]


def one(ns, m, a, fc, precision):
    arr = W.make_array(ns, a, fc, precision)
    pos, pol = R.element_positions(a, fc)
    n, p = len(pos), 2 if a["pol"] == "dual" else 1
    lam = R.C0 / fc
    ext = max(np.abs(pos).max(), lam)
    tol = 3e-7 if precision == "single" else 1e-13
    got = np_of(arr.ant_pos)
    m.check(got.dtype == (np.float32 if precision == "single" else np.float64), "attribute",
            f"positions are {got.dtype} in {precision} precision")
    m.shape("attribute", got, (n, 3))
    tag = {k: v for k, v in a.items() if k != "pattern"}
    m.close("position", got, pos, atol=tol * ext * 4, msg=f"element positions {tag}")
    m.check((got[:, 0] == 0).all(), "position", "elements off the y-z plane")
    g = got.astype(float)
    m.check(np.abs(g.mean(0)).max() <= 1e-6 * ext, "centred", f"array centre {g.mean(0)} {tag}")
    # symmetric under point reflection: centred for every spacing
    m.close("centred", np.sort(g[:, 1]), -np.sort(g[:, 1])[::-1], atol=tol * ext * 8, msg="y symmetric")
    m.close("centred", np.sort(g[:, 2]), -np.sort(g[:, 2])[::-1], atol=tol * ext * 8, msg="z symmetric")
    i1 = np_of(arr.ant_ind_pol1).astype(int)
    i2 = np_of(arr.ant_ind_pol2).astype(int) if p == 2 else np.zeros(0, int)
    m.check(sorted(np.r_[i1, i2].tolist()) == list(range(n)), "index partition",
            f"{i1} and {i2} do not partition {n} elements", n=n)
    m.close("index partition", np.sort(i1), np.flatnonzero(pol == 0), msg=f"first polarization {tag}")
    m.close("index partition", np.sort(i2), np.flatnonzero(pol == 1), msg=f"second polarization {tag}")
    m.close("co-located", np_of(arr.ant_pos_pol1), got[i1], msg="positions of polarization 1")
    if p == 2:
        m.close("co-located", np_of(arr.ant_pos_pol2), got[i2], msg="positions of polarization 2")
        m.close("co-located", got[i1], got[i2], msg="the two polarizations sit at one place")
        m.check(len({tuple(x) for x in np.round(g[i1] / lam, 5).tolist()}) == len(i1), "co-located",
                f"elements overlap {tag}")
    # slants at boresight
    rd = ns.tf.float64 if precision == "double" else ns.tf.float32
    th, ph = ns.tf.constant([np.pi / 2], rd), ns.tf.constant([0.], rd)
    amp = np.sqrt(R.pattern_power(a["pattern"], np.pi / 2, 0.))
    el = [arr.ant_pol1] + ([arr.ant_pol2] if p == 2 else [])
    for e, z in zip(el, R.slants(a)):
        ft, fp = (np_of(x)[0] for x in e.field(th, ph))
        m.close("slant", [ft, fp], [amp * np.cos(z), amp * np.sin(z)], atol=amp * tol * 5,
                msg=f"slant of {a['ptype']}, {a['pattern']}")
    if p == 1:
        for k in ("ant_pol2", "ant_ind_pol2", "ant_pos_pol2"):
            try:
                getattr(arr, k)
                m.check(False, "rejected", f"{k} exists with single polarization")
            except (AssertionError, AttributeError, ValueError):
                m.check(True, "rejected")
    r, c, pr, pc = (a.get(k, 1) for k in ("rows", "cols", "prow", "pcol"))
    vs, hs = a.get("vs") or .5, a.get("hs") or .5
    want = dict(num_ant=n, num_panels=pr * pc, num_panels_ant=r * c * p, num_rows=pr, num_cols=pc,
                num_rows_per_panel=r, num_cols_per_panel=c, element_vertical_spacing=vs,
                element_horizontal_spacing=hs,
                panel_vertical_spacing=a.get("pvs") or (r - 1) * vs + .5,
                panel_horizontal_spacing=a.get("phs") or (c - 1) * hs + .5)
    for k, v in want.items():
        m.close("attribute", float(np_of(getattr(arr, k))), float(v), rtol=2e-7, msg=k)
    m.check((arr.polarization, arr.polarization_type) == (a["pol"], a["ptype"]), "attribute", "names")
    # the shorthands are the general array
    if a["kind"] != "PanelArray":
        b = W.make_array(ns, dict(a, kind="PanelArray", rows=r, cols=c), fc, precision)
        m.close("shorthand", got, np_of(b.ant_pos), msg=a["kind"])
        m.close("shorthand", i1, np_of(b.ant_ind_pol1), msg=a["kind"])
    # scale: the same array at another carrier is the same number of wavelengths
    f2 = fc * 0.5 if fc > 1e10 else fc * 2
    if 1e9 < f2 < 5e10:
        b = W.make_array(ns, a, f2, "double")
        m.close("frame", np_of(b.ant_pos) * f2, pos * fc, rtol=1e-9, atol=1e-6, msg="wavelengths")
    # panel class: one panel in wavelengths
    pan = ns.antenna.AntennaPanel(r, c, a["pol"], vs, hs, precision=precision)
    one_p = R.element_positions(dict(a, kind="PanelArray", prow=1, pcol=1, pvs=None, phs=None), R.C0)[0]
    m.close("panel", np_of(pan.ant_pos), one_p, atol=tol * max(1., np.abs(one_p).max()) * 4,
            msg=f"panel {tag}")
    m.close("panel", [int(pan.num_rows), int(pan.num_cols)], [r, c], msg="panel size")
    m.close("panel", [float(pan.vertical_spacing), float(pan.horizontal_spacing)], [vs, hs], rtol=2e-7,
            msg="panel spacing")
    m.seen(a["kind"], r, c, pr, pc, a["ptype"], "vs" in a, "hs" in a, "pvs" in a, "phs" in a, precision)


def attempt(m, ok, what, f):
    try:
        f()
        m.check(ok, "accepted" if ok else "rejected", f"{what} was accepted")
    except (AssertionError, ValueError, TypeError) as e:
        m.check(not ok, "accepted" if ok else "rejected", f"{what} was rejected: {e!r}"[:300])


def run(c, m):
    ns = boot()
    for x in c["arrs"]:
        one(ns, m, x["a"], x["fc"], x["precision"])
    m.sample(first=c["arrs"][0])
    rng = np.random.RandomState(c["rej"])
    base = dict(num_rows_per_panel=int(rng.randint(1, 4)), num_cols_per_panel=int(rng.randint(1, 4)),
                polarization="dual", polarization_type="cross", antenna_pattern="omni",
                carrier_frequency=2e9, num_rows=2, num_cols=2)
    PA = lambda **k: lambda: ns.t.PanelArray(**dict(base, **k))
    for pol, ok in (("single", ("V", "H")), ("dual", ("VH", "cross"))):
        for t in ("V", "H", "VH", "cross", "v", "X", "", "HV", None):
            attempt(m, t in ok, f"{pol}/{t}", PA(polarization=pol, polarization_type=t))
    for pol in ("triple", "Single", "", None, "cross"):
        attempt(m, False, f"polarization {pol}", PA(polarization=pol))
        attempt(m, False, f"panel polarization {pol}",
                lambda: ns.antenna.AntennaPanel(1, 1, pol, .5, .5))
    for s in ("vertical", "horizontal"):
        n = base["num_rows_per_panel" if s == "vertical" else "num_cols_per_panel"]
        for sp in (.5, float(rng.uniform(.1, 2))):
            w = (n - 1) * sp
            k = {f"element_{s}_spacing": sp}
            other = "horizontal" if s == "vertical" else "vertical"
            k[f"panel_{other}_spacing"] = 50.
            attempt(m, True, f"{s} spacing just above the panel", PA(**k, **{f"panel_{s}_spacing": w + 1e-3}))
            if w > 0:
                attempt(m, False, f"{s} spacing equal to the panel", PA(**k, **{f"panel_{s}_spacing": w}))
                attempt(m, False, f"{s} spacing inside the panel", PA(**k, **{f"panel_{s}_spacing": w * .9}))
            # the other dimension's size must not matter
            big = {"num_rows_per_panel" if s == "horizontal" else "num_cols_per_panel": 9}
            attempt(m, True, f"{s} spacing with a long other side",
                    PA(**dict({**k, **big}), **{f"panel_{s}_spacing": w + .2}))
