"""C21: LOS states are drawn with the tabulated probability or forced as requested.

Oracle: exact binomial tails against the frozen LOS-probability table for the
draws, a state machine of the update history for forcing and persistence.
"""
import numpy as np
from scipy.stats import binom

from checks.c05 import SCN
from rt import tables as T, workload as W
from rt.boot import boot
from rt.recorder import np_of, record

RULE = "one distinct case = (kind, scenario, band, direction, tabulated angle, precision, graph) or an update history"
MIN_EVENTS = {"share": 2000, "share per node": 3000, "independence": 1000, "redrawn": 500, "forced": 250,
              "constant": 50, "indoor": 50, "bernoulli": 400, "state used": 40}
ANT = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")
P0 = 1e-11


def cases(tier, rng):
    out = []
    k = 1 if tier == "quick" else 4
    for scen in W.SCEN:
        for bnd in ("S", "Ka"):
            for d in ("downlink", "uplink"):
                for a in range(10, 91, 10):
                    for _ in range(k):
                        o = rng.choice((0., 4.99, -4.99, 4.5, -4.5, 0.7, -2.0))
                        c = W.rand_cfg(rng, scen=scen, band=bnd, dir=d, elev=min(90., max(10., a + o)), topo="custom",
                                       batch=rng.choice((97, 150)), ut=rng.choice((12, 17)), bs=rng.choice((1, 2)), T=1,
                                       precision=rng.choice(("single", "double")), los=None)
                        c["ut_arr"] = c["bs_arr"] = ANT
                        out.append(dict(kind="draw", cfg=c, rounds=6 if tier == "quick" else 20,
                                        graph=rng.random() < .15))
    for i in range(24 * k * (1 if tier == "quick" else 4)):
        c = W.rand_cfg(rng, topo="custom", batch=rng.choice((1, 2, 5)), ut=rng.choice((1, 3, 6)),
                       bs=rng.choice((1, 1, 2)), T=1, precision=rng.choice(("single", "double")), los=None)
        c["ut_arr"] = c["bs_arr"] = ANT
        out.append(dict(kind="history", cfg=c, steps=14, deep=i % 2 == 0, free=False))
    for i in range(18 * k):      # never a request; many links, so that new draws show
        c = W.rand_cfg(rng, topo="custom", batch=rng.choice((20, 30)), ut=rng.choice((4, 6)), bs=rng.choice((1, 2)), T=1,
                       precision=rng.choice(("single", "double")), los=None, elev=float(rng.choice((10, 20, 30, 50, 70))))
        c["ut_arr"] = c["bs_arr"] = ANT
        out.append(dict(kind="history", cfg=c, steps=18, deep=i % 2 == 0, free=True))
    for i in range(8 * k):
        out.append(dict(kind="bernoulli", precision=rng.choice(("single", "double", None))))
    return out


def scenario(ns, c):
    arr = W.make_array(ns, ANT, c["fc"], c["precision"])
    return getattr(ns.t, SCN[c["scen"]])(c["fc"], arr, arr, c["dir"], c["elev"], precision=c["precision"])


def tail(m, key, hits, n, p, msg):
    """hits of n independent trials of probability p, exact two-sided tails."""
    if n == 0:
        return
    lo, hi = binom.cdf(hits, n, p), binom.sf(hits - 1, n, p)
    m.check(min(lo, hi) > P0, key, f"{msg}: {hits} of {n}, probability {p:.4f} (tails {lo:.1e}, {hi:.1e})", n=max(1, n // 100))


def agree(m, key, x, y, p, msg):
    tail(m, key, int((x == y).sum()), x.size, p * p + (1 - p) ** 2, msg)


def draw(ns, m, c):
    cfg = c["cfg"]
    s = scenario(ns, cfg)
    topo = W.topology(ns, cfg)
    p = T.value(cfg, "LoS_p", True)
    up = {"ut_loc": ("ut_loc",), "bs_loc": ("bs_loc",), "in_state": ("in_state",),
          "all": W.TOPO_KEYS, "locations": ("ut_loc", "bs_loc")}
    got = []
    s.set_topology(**topo)
    got.append(np_of(s.los))
    if c["graph"]:
        g = ns.tf.function(lambda: (s.set_topology(**topo), s.los)[1])
        for i in range(c["rounds"]):
            got.append(np_of(g()))
    else:
        for i in range(c["rounds"]):
            how = list(up)[i % len(up)]
            s.set_topology(**{k: topo[k] for k in up[how]})
            got.append(np_of(s.los))
            agree(m, "redrawn", got[-1], got[-2], p, f"draws before and after an update of {how}")
            m.check(got[-1].shape != got[-2].shape or not np.array_equal(got[-1], got[-2]),
                    "redrawn", f"{how}: same states again")
    want = (cfg["batch"], cfg["bs"], cfg["ut"])
    for x in got:
        m.shape("share", x, want)
        m.check(x.dtype == bool, "share", "type")
    x = np.stack(got)                                                  # [round, B, S, U]
    w = f"{cfg['scen']} {T.band(cfg['fc'])} {cfg['dir']} elevation {cfg['elev']}"
    tail(m, "share", int(x.sum()), x.size, p, w)
    for ax, name in ((0, "draw"), (1, "batch example"), (2, "platform"), (3, "user")):
        o = tuple(i for i in range(4) if i != ax)
        for j, h in enumerate(x.sum(axis=o)):
            tail(m, "share per node", int(h), x.size // x.shape[ax], p, f"{w}, {name} {j}")
        if x.shape[ax] > 1:           # disjoint neighbours are independent
            n = x.shape[ax] // 2 * 2
            y = np.take(x, range(0, n, 2), ax), np.take(x, range(1, n, 2), ax)
            agree(m, "independence", *y, p, f"{w}: neighbours along {name}")
            if x.shape[ax] > 3:
                n = x.shape[ax] // 4 * 4
                for i, j in ((0, 2), (1, 3)):
                    agree(m, "independence", np.take(x, range(i, n, 4), ax), np.take(x, range(j, n, 4), ax), p,
                          f"{w}: two apart along {name}")
    m.seen("draw", cfg["scen"], T.band(cfg["fc"]), cfg["dir"], T.nearest(cfg["elev"]), cfg["precision"], c["graph"])
    m.count("links drawn", x.size)


def history(ns, m, c):
    """Random update histories, against the documented reuse rules."""
    cfg = c["cfg"]
    r = np.random.RandomState(c["seed"] % 2**31)
    tf = ns.tf
    topo = W.topology(ns, cfg)
    if c["deep"]:
        model, _, _ = W.make_model(ns, cfg)
        s, setter = W.scen(model), model.set_topology
    else:
        model, s = None, scenario(ns, cfg)
        setter = s.set_topology
    B, U, S = cfg["batch"], cfg["ut"], cfg["bs"]
    prob = T.value(cfg, "LoS_p", True)
    request, indoor, first, prev = None, np.zeros((B, U), bool), True, None
    trace = []
    for step in range(c["steps"]):
        op = "all" if first else r.choice(("ut_loc", "still", "still", "still", "air", "air", "all", "call") if c["free"] else
                                          ("ut_loc", "bs_loc", "in_state", "still", "air", "los", "all", "call"))
        kw, fresh = {}, True
        if op in ("all", "ut_loc"):
            kw["ut_loc"] = topo["ut_loc"]
        if op in ("all", "bs_loc"):
            kw["bs_loc"] = topo["bs_loc"]
        if op == "all":
            kw.update({k: topo[k] for k in ("ut_orientations", "bs_orientations", "ut_velocities")})
        if op in ("all", "in_state"):
            # indoor users only where no channel is generated: their parameters are not defined in TR 38.811
            indoor = (r.rand(B, U) < .3) if (not c["deep"] and r.rand() < .5) else np.zeros((B, U), bool)
            kw["in_state"] = tf.constant(indoor)
        if op == "still":
            k = r.choice(("ut_orientations", "bs_orientations", "ut_velocities"))
            kw[k] = topo[k] * float(r.rand())
            fresh = False
        if op == "air":
            fresh = False
            s.set_topology(temperature=float(r.uniform(250, 300)), water_vapor_density=float(r.uniform(0, 10)))
        if not c["free"] and (op == "los" or (fresh and op != "call" and r.rand() < .4)):
            v = [None, True, False, tf.constant(True), tf.constant(False)][r.randint(5)]
            if op == "los" and v is None:
                v = bool(r.rand() < .5)
            kw["los"] = v
            if v is not None:
                request = bool(v)
        if op == "call":
            fresh = False
            if model is not None:
                with record() as tr:
                    model(1, 1e3)
                e = tr.last("cir")
                want = np_of(s.los)
                m.close("state used", np.asarray(e.topology.los), np.swapaxes(want, 1, 2) if cfg["dir"] == "uplink" else want)
        elif op != "air":
            setter(**kw)
        trace.append((op, str(kw.get("los"))))
        got = np_of(s.los)
        m.shape("forced", got, (B, S, U))
        out = np.broadcast_to(~indoor[:, None], got.shape)
        m.check(not got[~out].any(), "indoor", f"indoor users are LOS after {trace}")
        if not fresh:
            m.check(np.array_equal(got, prev), "constant", f"states changed by {trace[-1]} after {trace}")
        elif request is not None:
            m.check((got[out] == request).all(), "forced", f"requested {request} after {trace}")
        else:
            tail(m, "share", int(got[out].sum()), int(out.sum()), prob, f"history {trace}")
            m.ev["forced"] += 1
        prev, first = got, False
    m.seen("history", tuple(t[0] for t in trace))


def bernoulli(ns, m, c):
    tf = ns.tf
    r = np.random.RandomState(c["seed"] % 2**31)
    f = ns.utils.sample_bernoulli
    for _ in range(8):
        sh = [int(v) for v in r.choice((1, 2, 5, 60, 400), r.randint(1, 4))]
        p = float(r.choice((0., 1., .5, .001, .999, r.rand())))
        x = np_of(f(sh, p, precision=c["precision"]))
        m.shape("bernoulli", x, sh)
        m.check(x.dtype == bool, "bernoulli", "type")
        tail(m, "bernoulli", int(x.sum()), x.size, p, f"shape {sh}")
    # probability per entry; certain entries are certain
    p = np.concatenate([[0., 1.], r.rand(6), [.5]])
    rd = tf.float64 if c["precision"] == "double" else tf.float32
    x = np_of(f([3000, len(p)], tf.constant(p, rd), precision=c["precision"]))
    for j, q in enumerate(p):
        tail(m, "bernoulli", int(x[:, j].sum()), 3000, float(rd.as_numpy_dtype(q)), f"entry {j}")
    g = tf.function(lambda: f([5000], .3, precision=c["precision"]))
    a, b = np_of(g()), np_of(g())
    tail(m, "bernoulli", int(a.sum()), 5000, .3, "graph")
    agree(m, "bernoulli", a, b, .3, "two executions of one graph")
    m.ev["bernoulli"] += 40
    m.seen("bernoulli", c["seed"])


def run(c, m):
    ns = boot()
    dict(draw=draw, history=history, bernoulli=bernoulli)[c["kind"]](ns, m, c)
    m.sample(kind=c["kind"], **(W.brief(c["cfg"]) if "cfg" in c else {}))
