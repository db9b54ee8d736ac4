"""C17: radiation patterns equal their closed forms over the whole sphere."""
import math

import numpy as np

from rt import refmodel as R, workload as W
from rt.boot import boot
from rt.recorder import np_of

RULE = "one distinct case = (pattern, slant, precision, set of directions)"
MIN_EVENTS = {"power law": 100000, "finite": 100000, "symmetry": 50000, "maximum": 100, "slant split": 50000,
              "array element": 30, "mode": 100}
ASSUMPTIONS = ["the aperture gain is zero behind the aperture plane; directions within 1e-6 of that "
               "plane (2e-15 in double) are not judged, rounding decides on which side they fall"]
PEAK_DB = {"omni": 0., "38.901": 8., "aperture": 0., "dlp": 0.}


def directions(rng, n):
    """Zenith, azimuth: random, and the places where a formula can go wrong."""
    t = list(np.arccos(rng.uniform(-1, 1, n)))
    p = list(rng.uniform(-np.pi, np.pi, n))
    edge_t = [0., np.pi, np.pi / 2, np.pi / 4, 1e-4, np.pi - 1e-4] + \
        [np.radians(90 + s * x) for s in (-1, 1) for x in
         (32.5, 65, 65 * math.sqrt(2.5), 102 * .8, 45, 90, 90 * math.sqrt(25 / 12), .01, .1, 1., 3.5, 6.4)]
    edge_t = [x for x in edge_t if 0 <= x <= np.pi]
    edge_p = [0., np.pi, -np.pi, np.pi / 2, -np.pi / 2, 1e-4, -1e-4] + \
        [np.radians(s * x) for s in (-1, 1) for x in
         (32.5, 65, 65 * math.sqrt(2.5), 103, 45, 90, 90 * math.sqrt(25 / 12), 130, 179.9, .01, .1, 1., 3.49, 6.4)]
    for a in edge_t:
        for b in edge_p:
            t.append(a), p.append(b)
    # rings around boresight: main lobe, nulls and side lobes of the aperture
    j1z = (3.8317059702, 7.0155866698, 10.1734681351, 13.3236919363, 60.)
    for x in j1z + (1e-3, .1, 1., 2., 5.1356):
        r = math.asin(x / (20 * np.pi))
        for a in rng.uniform(-np.pi, np.pi, 6):
            z, y = math.sin(r) * math.sin(a), math.sin(r) * math.cos(a)
            t.append(math.acos(z)), p.append(math.atan2(y, math.cos(r)))
    return np.array(t), np.array(p)


def cases(tier, rng):
    n = {"quick": 10, "thorough": 160}[tier]
    return [dict(pattern=p, precision=pr, slants=[0., math.pi / 2, -math.pi / 4, math.pi / 4,
                                                  round(rng.uniform(-7, 7), 4)],
                 dirs=rng.randrange(2**31), n=2000)
            for _ in range(n) for p in W.PATTERNS for pr in ("single", "double")]


def power(ns, el, rd, t, p):
    ft, fp = el.field(ns.tf.constant(t, rd), ns.tf.constant(p, rd))
    return np_of(ft), np_of(fp)


def run(c, m):
    ns = boot()
    tf = ns.tf
    double = c["precision"] == "double"
    rd, nd = (tf.float64, np.float64) if double else (tf.float32, np.float32)
    rng = np.random.RandomState(c["dirs"])
    t, p = directions(rng, c["n"])
    t, p = t.astype(nd).astype(float), p.astype(nd).astype(float)
    t = np.clip(t, 0, float(nd(np.pi)))
    want = R.pattern_power(c["pattern"], t, p)
    ok = np.ones(t.shape, bool)
    if c["pattern"] == "aperture":
        ok = np.abs(np.sin(t) * np.cos(p)) > (2e-15 if double else 1e-6)
    eps = 1e-15 if double else 1.2e-7
    # conditioning: the rounding of the angles, amplified by the slope of the law
    peak = 10 ** (PEAK_DB[c["pattern"]] / 10)
    if c["pattern"] == "aperture":
        s = np.sqrt((np.sin(t) * np.sin(p)) ** 2 + np.cos(t) ** 2)
        dr = eps * 4 / np.maximum(s, np.sqrt(eps))
        tol = np.minimum(62.9 * dr * np.minimum(1., 2 / np.maximum(62.9 * s, 1e-9) ** 1.5), 1.) * 2 + 40 * eps
    else:
        tol = want * (200 * eps)
    for z in c["slants"]:
        el = ns.antenna.AntennaElement(c["pattern"], z, precision=c["precision"])
        ft, fp = power(ns, el, rd, t, p)
        m.check(ft.dtype == nd and fp.dtype == nd, "finite", f"field is {ft.dtype} in {c['precision']}")
        m.check(np.isfinite(ft).all() and np.isfinite(fp).all(), "finite",
                f"{c['pattern']}: non-finite field", n=ft.size)
        ft, fp = ft.astype(float), fp.astype(float)
        g = ft ** 2 + fp ** 2
        e = np.abs(g - want) / tol
        e[~ok] = 0
        i = int(np.nanargmax(e))
        m.check(np.nanmax(e) <= 1, "power law", f"{c['pattern']} at theta {t[i]!r}, phi {p[i]!r}: power {g[i]!r}, "
                f"law {want[i]!r}", n=int(ok.sum()))
        a = np.sqrt(g)
        zz = float(nd(z))
        m.close("slant split", ft, a * math.cos(zz), atol=20 * eps * math.sqrt(peak), msg=f"vertical, slant {z}")
        m.close("slant split", fp, a * math.sin(zz), atol=20 * eps * math.sqrt(peak), msg=f"horizontal, slant {z}")
        m.check(g[ok].max() <= peak * (1 + 100 * eps), "maximum", f"{c['pattern']}: gain {g[ok].max()} above {peak}")
        m.seen(c["pattern"], z, c["precision"], c["dirs"])
    z = c["slants"][-1]
    el = ns.antenna.AntennaElement(c["pattern"], z, precision=c["precision"])
    # peak at boresight
    f = power(ns, el, rd, np.array([np.pi / 2]), np.array([0.]))
    m.close("maximum", float(f[0][0]) ** 2 + float(f[1][0]) ** 2, peak, rtol=1e-5 if not double else 1e-12,
            msg=f"boresight gain of {c['pattern']}")
    # left-right and up-down symmetry
    g0 = sum(np.asarray(x, float) ** 2 for x in power(ns, el, rd, t, p))
    g1 = sum(np.asarray(x, float) ** 2 for x in power(ns, el, rd, t, -p))
    g2 = sum(np.asarray(x, float) ** 2 for x in power(ns, el, rd, np.clip(np.pi - t, 0, float(nd(np.pi))), p))
    e = np.abs(g1 - g0) / (2 * tol)
    m.check(e[ok].max() <= 1, "symmetry", f"{c['pattern']}: left-right", n=int(ok.sum()))
    e = np.abs(g2 - g0) / (2 * tol + peak * 300 * eps)
    m.check(e[ok].max() <= 1, "symmetry", f"{c['pattern']}: up-down", n=int(ok.sum()))
    # shape of the input does not matter, nor compiled execution
    n = len(t) // 6 * 6
    ft, fp = power(ns, el, rd, t[:n].reshape(2, 3, -1), p[:n].reshape(2, 3, -1))
    m.check(ft.shape == (2, 3, n // 6), "mode", "shape")
    m.close("mode", (ft.astype(float) ** 2 + fp.astype(float) ** 2).ravel()[ok[:n]], g0[:n][ok[:n]], rtol=1e-6, atol=1e-12, msg="rank")
    gf = tf.function(el.field)(tf.constant(t, rd), tf.constant(p, rd))
    gg = sum(np_of(x).astype(float) ** 2 for x in gf)
    m.check((np.abs(gg - g0)[ok] <= 2 * tol[ok]).all(), "mode", "graph execution", n=int(ok.sum()))
    # the element inside an array is the same element
    a = dict(kind="Antenna", pol="dual", ptype="cross", pattern=c["pattern"])
    arr = W.make_array(ns, a, 2e9, c["precision"])
    for e, s in ((arr.ant_pol1, -1), (arr.ant_pol2, 1)):
        ft, fp = (x.astype(float) for x in power(ns, e, rd, t, p))
        b = np.sqrt(g0 / 2)
        m.close("array element", ft[ok], b[ok], atol=1e-4 * math.sqrt(peak), msg="theta component")
        m.close("array element", fp[ok], s * b[ok], atol=1e-4 * math.sqrt(peak), msg="phi component")
    m.sample(pattern=c["pattern"], precision=c["precision"], directions=int(t.size), max=float(g0[ok].max()),
             min=float(g0[ok].min()))
