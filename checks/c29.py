"""C29: models used from several threads at once behave as if each were alone.

The threads run real sessions (construction, drops, updates, generations) while a
line tracer restricted to OpenNTN's own code injects pauses, so that preemptions
happen in the middle of the stages. Each thread's recorded generations are judged on
their own, and everything that is not random against the same session run alone.
"""
import os
import random
import sys
import threading
import time
import traceback
import types

import numpy as np

from rt import match, workload as W
from rt.boot import REPO, boot, seed_all
from rt.core import Mon, Stop
from rt.recorder import LSP_FIELDS, Trace, fetches, fill, np_of, record

RULE = ("one distinct case = (kind, configurations of the threads, their sequences of operations); the evidence counts "
        "the preemptions: another thread ran OpenNTN code between two lines of a thread")
MIN_EVENTS = {"preemptions": 2000, "as if alone": 1000, "cir:path": 2000, "gain": 100, "shared generations": 60,
              "not shared": 40, "parameters kept": 100, "compiled": 5, "parts": 500}
GEO = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "distance_2d", "distance_3d",
       "los_aod", "los_aoa", "los_zod", "los_zoa", "matrix_ut_distance_2d", "gas_pathloss", "scintillation_pathloss",
       "free_space_pathloss", "elevation_angle", "carrier_frequency", "doppler_enabled")
STATE = ("los", "lsp_log_mean", "lsp_log_std")


def cfg(rng, **k):
    c = W.rand_cfg(rng, topo=rng.choice(("custom", "custom", "gen")), height=W.rand_height(rng, False),
                   precision=rng.choice(("single", "double", "double")), batch=rng.choice((1, 2)),
                   ut=rng.choice((1, 2, 3)), T=rng.choice((1, 2)), history=False, **k)
    if c["topo"] == "custom":
        c["bs"] = rng.choice((1, 1, 2))
    for a in ("ut_arr", "bs_arr"):
        c[a] = W.rand_array(rng, max_ant=4)
    return c


def ops(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .55:
            out.append(("call", rng.choice((1, 2, 3)), rng.choice((1e4, 1e6))))
        elif r < .7:
            out.append(("graph",))
        elif r < .8:
            out.append(("set", rng.randrange(2**31), rng.choice((None, True, False))))
        elif r < .87:
            out.append(("vel", rng.randrange(2**31)))
        elif r < .94:
            out.append(("ut", rng.randrange(2**31)))
        else:
            out.append(("atm", rng.choice((260., 273., 300.))))
    return out + [("call", 2, 1e5)]


def cases(tier, rng):
    k = {"quick": 1, "thorough": 8}[tier]
    out = []
    for i in range(16 * k):
        n = rng.choice((2, 3, 4))
        cs = [cfg(rng, always=rng.random() < .3) for _ in range(n)]
        arr = i % 4 == 1          # arrays are shared by the models of all threads
        if arr:
            for c in cs:
                c.update(fc=cs[0]["fc"], precision=cs[0]["precision"], ut_arr=cs[0]["ut_arr"], bs_arr=cs[0]["bs_arr"])
        if i % 4 == 2:            # same class and same sizes: a mix-up would not show in shapes
            for c in cs:
                c.update({k_: cs[0][k_] for k_ in ("scen", "fc", "precision", "ut_arr", "bs_arr", "batch", "ut", "bs",
                                                  "topo", "dir")})
        out.append(dict(kind="own", cfgs=cs, arr=arr, ops=[ops(rng, 5) for _ in cs]))
    for i in range(14 * k):
        out.append(dict(kind="one", cfgs=[cfg(rng, always=i % 3 == 2)], threads=rng.choice((2, 3, 4)),
                        calls=4, los_now=rng.choice((None, True, False))))
    for i in range(8 * k):
        p = W.PATTERNS[i % 4]
        c = cfg(rng, always=False)
        for a in ("ut_arr", "bs_arr"):
            c[a]["pattern"] = p
        out.append(dict(kind="parts", cfgs=[c], threads=rng.choice((2, 3)), same=rng.random() < .7))
    return out


class Pauses:
    """Pauses at random lines of OpenNTN's code, in every thread started below."""

    def __init__(self, seed):
        self.seed = seed
        self.files = {}
        self.last, self.lines, self.switches = None, 0, 0
        self.where, self.order = set(), 0

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f not in self.files:
            self.files[f] = os.path.realpath(f).startswith(REPO + os.sep)
        if not self.files[f]:
            return None
        name = os.path.basename(f)
        me = threading.get_ident()
        rng = random.Random(f"{self.seed}{threading.current_thread().name}{self.lines}")

        def line(frame, event, arg):
            if event == "line":
                self.lines += 1
                if self.last is not None and self.last != me:
                    self.switches += 1
                    self.where.add(f"{name}:{frame.f_code.co_name}+{frame.f_lineno - frame.f_code.co_firstlineno}")
                    self.order = hash((self.order, name, frame.f_lineno)) & 0xffffffff
                self.last = me
                r = rng.random()
                # all threads linger at the same few lines, and now and then anywhere
                if (frame.f_lineno * 7919 + self.seed) % 11 == 0 and r < .5:
                    time.sleep(rng.uniform(1e-4, 1e-3))
                elif r < .02:
                    time.sleep(rng.uniform(2e-4, 4e-3))
                elif r < .1:
                    time.sleep(0)
            return line
        return line


def run_threads(c, m, jobs, limit=120.):
    """Runs the jobs concurrently; their monitors are merged into m."""
    p = Pauses(c["seed"])
    boxes = []
    gate = threading.Barrier(len(jobs))
    old = sys.getswitchinterval()

    def body(job, box):
        sys.settrace(p.trace)
        try:
            gate.wait(30)
            job(box.m)
        except Stop:
            pass
        except Exception as e:                   # noqa: BLE001
            box.err, box.text = e, traceback.format_exc()[-1500:]
        finally:
            sys.settrace(None)
    try:
        sys.setswitchinterval(1e-5)
        ts = []
        for i, j in enumerate(jobs):
            b = types.SimpleNamespace(m=Mon(), err=None, text="")
            boxes.append(b)
            t = threading.Thread(target=body, args=(j, b), daemon=True, name=f"t{i}")
            ts.append(t)
            t.start()
        end = time.time() + limit
        for t in ts:
            t.join(max(.1, end - time.time()))
    finally:
        sys.setswitchinterval(old)
    m.need(not any(t.is_alive() for t in ts), "finished", "a thread is stuck")
    for b in boxes:
        d = b.m.dump()
        for v in d["viol"]:
            m.fail(v["key"], v["msg"], **(v["data"] if isinstance(v["data"], dict) else {}))
        m.merge(d)
    m.ev["preemptions"] += p.switches
    m.count("lines of OpenNTN executed in threads", p.lines)
    for w in p.where:
        m.seen("preempted at", w)
    m.seen("interleaving", p.order)
    for b in boxes:
        if b.err is not None:
            if "tr38811" in b.text or "OpenNTN" in b.text:
                m.fail("exception in a thread", f"{type(b.err).__name__}: {str(b.err)[:300]}", traceback=b.text)
            else:
                raise RuntimeError(b.text)


def build(ns, c, arrs):
    if arrs is None:
        return W.make_model(ns, c)[0]
    return ns.models[c["scen"]](
        carrier_frequency=c["fc"], ut_array=arrs[0], bs_array=arrs[1], direction=c["dir"], elevation_angle=c["elev"],
        enable_pathloss=c["pl"], enable_shadow_fading=c["sf"], doppler_enabled=c["doppler"],
        always_generate_lsp=c["always"], precision=c["precision"])


def look(model, los):
    s = W.scen(model)
    return {k: np_of(getattr(s, k)) for k in GEO + (STATE if los is not None else ())}


def judge(m, c, model, tr, a, tau, lsp0):
    """One generation against what its own thread recorded."""
    m.need(tr.kinds().count("cir") == 1 and tr.kinds().count("rays") == 1, "stages",
           f"stages run by the call: {tr.kinds()}")
    e, r = tr.last("cir"), tr.last("rays")
    ul, double = c["dir"] == "uplink", c["precision"] == "double"
    txa, rxa = (c["ut_arr"], c["bs_arr"]) if ul else (c["bs_arr"], c["ut_arr"])
    match.snapshot(m, "inputs", e, c, W.scen(model), np_of)
    match.cir(m, "cir", e, c["fc"], txa, rxa, double)
    t = (lambda x: np.swapaxes(x, 1, 2)) if ul else (lambda x: x)
    m.close("rays used", e.rays.powers, t(r.powers), atol=0)
    m.close("rays used", e.k_factor, t(r.lsp.k_factor), atol=0)
    for k, w in (("aoa", "aod" if ul else "aoa"), ("zod", "zoa" if ul else "zod"), ("xpr", "xpr")):
        m.close("rays used", getattr(e.rays, k), t(getattr(r, w)), atol=0)
    g = np.ones(r.lsp.sf.shape)
    if c["pl"]:
        g = g * 10 ** (-tr.last("pathloss").astype(float) / 20)
    if c["sf"]:
        g = g * np.sqrt(r.lsp.sf.astype(float))
    g = t(g)[:, :, :, None, None, None, None]
    h = np.transpose(np_of(a).astype(complex), (0, 3, 1, 5, 2, 4, 6))
    sc = np.abs(e.h).max(axis=(3, 4, 5, 6), keepdims=True) * g
    sc[sc == 0] = 1
    m.close("gain", h / sc, e.h * g / sc, atol=1e-9 if double else 3e-5)
    m.close("delays", np.swapaxes(np_of(tau), 1, 2), e.delays, atol=0)
    if not c["always"]:
        if lsp0 is not None:
            for f in LSP_FIELDS:
                m.close("parameters kept", getattr(r.lsp, f), getattr(lsp0, f), msg=f, atol=0)
        return r.lsp
    return None


def session(ns, c, todo, topos, arrs, tr, m, refs=None, compiled=True):
    """A session of one thread; its deterministic states are compared with refs or returned."""
    out = []

    def state(model, los):
        now = look(model, los)
        if refs is None:
            out.append(now)
        elif m is not None:
            want = refs[len(out)]
            out.append(None)
            for k, v in want.items():
                m.check(v.dtype == now[k].dtype and np.array_equal(v, now[k], equal_nan=v.dtype.kind == "f"),
                        "as if alone", f"{k} differs from the same session run alone ({c['scen']} {c['dir']})")
    model = build(ns, c, arrs)
    los = c["los"]
    model.set_topology(los=los, **topos["first"])
    state(model, los)
    lsp = None
    for o in todo:
        if o[0] == "set":
            los = o[2]
            model.set_topology(los=los, **topos[o[1]])
        elif o[0] == "vel":
            model.set_topology(ut_velocities=topos[o[1]]["ut_velocities"])
        elif o[0] == "ut":
            model.set_topology(ut_loc=topos[o[1]]["ut_loc"])
        elif o[0] == "atm":
            W.scen(model).set_topology(temperature=o[1])
        elif tr is None:
            pass
        elif o[0] == "graph" and compiled:
            box = {}
            tr.mine()

            @ns.tf.function
            def f():
                a, tau = model(1, 1e5)
                box["tree"] = dict(a=a, tau=tau, ev=tr.mine().events)
                return fetches(box["tree"])
            v = f()
            x = fill(box["tree"], v)
            t = Trace()
            t.events = x["ev"]
            lsp = judge(m, c, model, t, x["a"], x["tau"], lsp)
            m.check(True, "compiled")
        elif o[0] == "call" or o[0] == "graph":
            n, fs = o[1:] if o[0] == "call" else (1, 1e5)
            tr.mine()
            a, tau = model(n, fs)
            t = tr.mine()
            lsp = judge(m, c, model, t, a, tau, lsp)
            m.check(np_of(a).shape[-1] == n and t.last("cir").sampling_frequency == fs, "own request")
        if o[0] in ("set", "ut"):
            lsp = None
        state(model, los)
    return out


def own(ns, m, c):
    arrs = None
    if c["arr"]:
        arrs = [W.make_array(ns, c["cfgs"][0][k], c["cfgs"][0]["fc"], c["cfgs"][0]["precision"])
                for k in ("ut_arr", "bs_arr")]
    topos, refs = [], []
    for x, o in zip(c["cfgs"], c["ops"]):
        t = {"first": W.topology(ns, x)}
        t.update({q[1]: W.topology(ns, dict(x, topo_seed=q[1])) for q in o if q[0] in ("set", "vel", "ut")})
        topos.append(t)
        refs.append(session(ns, x, o, t, arrs, None, None))
    with record() as tr:
        run_threads(c, m, [(lambda mm, x=x, o=o, t=t, r=r: session(ns, x, o, t, arrs, tr, mm, r))
                           for x, o, t, r in zip(c["cfgs"], c["ops"], topos, refs)])
    # nothing random is the same in two threads
    draws = [e for k, e in tr.events if k == "rays" and isinstance(e.aoa, np.ndarray)]
    fresh(m, draws)
    for x, o in zip(c["cfgs"], c["ops"]):
        m.seen("own", x["scen"], x["dir"], x["precision"], [q[0] for q in o])


def fresh(m, draws):
    for i, x in enumerate(draws):
        for y in draws[:i]:
            if x.xpr.shape == y.xpr.shape:
                same = np.all(x.xpr == y.xpr, axis=(-1, -2)).any() or np.all(x.delays == y.delays, axis=-1).any()
                m.check(not same, "not shared", "two generations share their rays")


def one(ns, m, c):
    """One model, its drop set, generated from by several threads."""
    x = c["cfgs"][0]
    model, topo, ut, bs = W.build(ns, dict(x, los=c["los_now"]))
    before = look(model, c["los_now"])
    r = random.Random(c["seed"])
    plans = [[(r.choice((1, 2, 3)), r.choice((1e4, 1e5, 1e6))) for _ in range(c["calls"])]
             for _ in range(c["threads"])]
    with record() as tr:
        model(1, 1e4)
        lsp0 = None if x["always"] else tr.mine().last("rays").lsp

        def job(plan):
            def f(mm):
                for n, fs in plan:
                    tr.mine()
                    a, tau = model(n, fs)
                    t = tr.mine()
                    judge(mm, x, model, t, a, tau, lsp0)
                    e = t.last("cir")
                    mm.check(np_of(a).shape[-1] == n and e.num_time_samples == n and e.sampling_frequency == fs,
                             "shared generations", "the call was given another call's time grid")
            return f
        run_threads(c, m, [job(p) for p in plans])
    fresh(m, tr.of("rays"))
    after = look(model, c["los_now"])
    for k, v in before.items():
        m.check(np.array_equal(v, after[k], equal_nan=v.dtype.kind == "f"), "drop kept", f"{k} changed by generations")
    m.seen("one", x["scen"], x["dir"], x["precision"], c["threads"], plans)


def parts(ns, m, c):
    """Elements, arrays, scenario and conversions of one instance asked by several threads."""
    x, tf = c["cfgs"][0], ns.tf
    rd = tf.float64 if x["precision"] == "double" else tf.float32
    r = np.random.RandomState(c["seed"] % 2**31)
    model, ut, bs = W.make_model(ns, x)
    model.set_topology(los=c["same"], **W.topology(ns, x))
    model(1, 1e5)
    s, u = W.scen(model), ns.utils

    def plan(i):
        """[(name, function)] with inputs of this thread's own"""
        n = 40 if c["same"] else 20 + 10 * i
        k = lambda v: tf.constant(v, rd)
        th, ph = k(r.uniform(.1, 3., n)), k(r.uniform(-3., 3., n))
        d = k(r.uniform(0, 360, (n, 4)))
        out = [("field", lambda: ut.ant_pol1.field(th, ph)), ("field", lambda: bs.ant_pol1.field(th, ph)),
               ("degrees", lambda: [u.deg_2_rad(d), u.rad_2_deg(d), u.wrap_angle_0_360(3 * d)]),
               ("state", lambda: [s.los_aod, s.distance_3d, s.lsp_log_mean, s.get_param("cDS"), s.get_param("rTau")])]
        if ut.polarization == "dual":
            out.append(("field", lambda: ut.ant_pol2.field(th, ph)))
        return out
    copy = lambda v: [np.array(np_of(y), copy=True) for y in v] if isinstance(v, (list, tuple)) else [np_of(v)]
    plans = [plan(i) for i in range(c["threads"])]
    alone = [[copy(f()) for _, f in p] for p in plans]

    def job(p, ref):
        def f(mm):
            for _ in range(12):
                for (name, fun), want in zip(p, ref):
                    got = copy(fun())
                    mm.check(len(got) == len(want) and all(
                        a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True)
                        for a, b in zip(got, want)), "parts", f"{name} ({x['ut_arr']['pattern']}) differs from alone")
        return f
    run_threads(c, m, [job(p, a) for p, a in zip(plans, alone)])
    m.seen("parts", x["ut_arr"]["pattern"], x["precision"], c["threads"], c["same"])


def run(c, m):
    ns = boot()
    seed_all(c["seed"])
    dict(own=own, one=one, parts=parts)[c["kind"]](ns, m, c)
    if m.samples == []:
        m.sample(kind=c["kind"], threads=len(c.get("ops", [])) or c["threads"], preemptions=m.ev["preemptions"])
