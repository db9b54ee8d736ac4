"""C30: long simulations neither accumulate nor drift.

Sessions of many drops and generations: what the models hold, the live objects of the
process, the work done per generation and the compiled functions stay as they were
after the first rounds, and drops generated late follow the law of the early ones.
"""
import functools
import gc
import os
import random
import sys
import types

import numpy as np

from rt import stats, tables as T, workload as W
from rt.boot import REPO, boot, seed_all
from rt.recorder import np_of, record

RULE = ("one distinct case = (kind, configuration, sequence of operations of a round); a round is repeated many times "
        "and measured in between")
MIN_EVENTS = {"held": 30, "live": 40, "work": 40, "traces": 10, "graph size": 4, "late equals early": 200,
              "stationary": 40, "generations": 800}
GEO = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "distance_2d", "distance_3d",
       "los_aod", "los_aoa", "los_zod", "los_zoa", "matrix_ut_distance_2d", "gas_pathloss", "scintillation_pathloss",
       "free_space_pathloss", "los", "lsp_log_mean", "lsp_log_std")
SMALL = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")


def round_ops(rng):
    """One round: what a simulation does between two measurements."""
    out = []
    for _ in range(rng.randint(2, 4)):
        out.append(("set", rng.choice((1, 1, 2)), rng.choice((None, None, True, False))))
        for _ in range(rng.randint(1, 3)):
            out.append(rng.choice((("call", 1, 1e5), ("call", 2, 1e5), ("call", 3, 1e4), ("vel",), ("ut",), ("ori",),
                                   ("atm",), ("dop",), ("gen",))))
        out.append(("call", 2, 1e5))
    return out


def cases(tier, rng):
    k = {"quick": 1, "thorough": 4}[tier]
    out = []
    for i in range(12 * k):
        c = W.rand_cfg(rng, topo="custom", height=W.rand_height(rng, False), batch=rng.choice((1, 2)),
                       ut=rng.choice((1, 2, 4)), always=i % 3 == 1, precision=rng.choice(("single", "double")),
                       history=False)
        out.append(dict(c, kind="eager", ops=round_ops(rng), rounds=20 * (1 if tier == "quick" else 4)))
    for i in range(6 * k):
        c = W.rand_cfg(rng, topo="custom", batch=rng.choice((1, 2)), ut=rng.choice((1, 2)), always=i % 3 == 1,
                       T=2, precision=rng.choice(("single", "double")), history=False, ut_arr=SMALL, bs_arr=SMALL)
        out.append(dict(c, kind="compiled", inside=i % 2 == 0, n=25 * (1 if tier == "quick" else 4),
                        los=rng.choice((None, True))))
    for i in range(8 * k):
        c = W.rand_cfg(rng, topo="custom", batch=60, ut=1, bs=1, always=i % 2 == 1, pl=True, sf=i % 3 > 0, T=1,
                       los=rng.choice((True, False)), history=False, ut_arr=SMALL, bs_arr=SMALL,
                       precision=rng.choice(("single", "double")))
        out.append(dict(c, kind="drift", drops=24 * (1 if tier == "quick" else 5)))
    for i in range(6 * k):
        c = W.rand_cfg(rng, topo="custom", batch=rng.choice((1, 2)), ut=rng.choice((1, 2)), always=i % 3 == 1, T=2,
                       precision=rng.choice(("single", "double")), history=False)
        out.append(dict(c, kind="lifetimes", compiled=i % 3 == 2, models=24 * (1 if tier == "quick" else 3)))
    return out


# -- what is held

def ours():
    return [v for k, v in list(sys.modules.items()) if "tr38811" in k and isinstance(v, types.ModuleType)]


def held(ns, roots):
    """(containers' items, tensors, bytes) reachable from the roots and from OpenNTN's modules and classes."""
    seen, items, tensors, size = set(), 0, 0, 0
    stack = list(roots)
    for mod in ours():
        for v in vars(mod).values():
            if isinstance(v, type):
                if "tr38811" in v.__module__:
                    stack.append(v)
            elif isinstance(v, (dict, list, set, types.FunctionType, functools._lru_cache_wrapper)):
                if not isinstance(v, types.FunctionType) or "tr38811" in v.__module__:
                    if not (isinstance(v, dict) and "__builtins__" in v) and v is not vars(mod).get("__builtins__"):
                        stack.append(v)
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if ns.tf.is_tensor(x) or isinstance(x, (np.ndarray, ns.tf.Variable)):
            tensors += 1
            if hasattr(x, "numpy") or isinstance(x, np.ndarray):
                size += int(np.asarray(np_of(x)).nbytes)
        elif isinstance(x, functools._lru_cache_wrapper):
            items += x.cache_info().currsize
        elif isinstance(x, types.FunctionType):
            stack += list(vars(x).values()) + list(x.__defaults__ or ()) + [
                c.cell_contents for c in (x.__closure__ or ()) if _full(c)]
        elif isinstance(x, types.MethodType):
            stack += [x.__func__]
        elif isinstance(x, (list, tuple, set, frozenset)):
            items += len(x)
            stack += list(x)
        elif isinstance(x, dict) or (hasattr(x, "items") and hasattr(x, "__len__") and not isinstance(x, type)):
            items += len(x)
            stack += list(x.values())
        elif isinstance(x, (str, bytes, bytearray)):
            size += len(x)
        elif isinstance(x, type):
            if "tr38811" in x.__module__:
                stack += [v for k, v in vars(x).items() if not k.startswith("__")]
        elif hasattr(x, "__dict__") and "tr38811" in type(x).__module__:
            items += len(vars(x))
            stack += list(vars(x).values()) + [type(x)]
    return items, tensors, size


def _full(cell):
    try:
        cell.cell_contents
        return True
    except ValueError:
        return False


def live(ns):
    """Live tensors and OpenNTN objects of the process."""
    gc.collect()
    t = o = 0
    for x in gc.get_objects():
        c = type(x)
        if "tr38811" in getattr(c, "__module__", "") if isinstance(getattr(c, "__module__", ""), str) else False:
            o += 1
        elif c.__name__ == "EagerTensor" or c is np.ndarray:
            t += 1
    return t, o, len(gc.get_objects())


class Work:
    """Counts the calls of OpenNTN functions."""

    def __init__(self):
        self.n, self.files = 0, {}

    def prof(self, frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f not in self.files:
                self.files[f] = os.path.realpath(f).startswith(REPO + os.sep)
            self.n += self.files[f]

    def __enter__(self):
        sys.setprofile(self.prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


# -- sessions

def do_round(ns, c, model, r, m, ops):
    """One round of operations on fresh random drops."""
    n = c["batch"]
    last = None
    for o in ops:
        if o[0] == "set":
            n = o[1]
            last = W.topology(ns, dict(c, batch=n, topo_seed=int(r.randint(2**31 - 1))))
            model.set_topology(los=o[2], **last)
        elif o[0] == "call":
            model(o[1], o[2])
            m.check(True, "generations")
        elif o[0] == "gen":
            ns.utils.gen_single_sector_topology(batch_size=2, num_ut=2, scenario=c["scen"], bs_height=c["height"],
                                                elevation_angle=c["elev"], precision=c["precision"])
        elif o[0] == "atm":
            W.scen(model).set_topology(temperature=float(r.uniform(250, 310)))
        elif o[0] == "dop":
            W.scen(model).set_topology(doppler_enabled=bool(r.randint(2)))
        else:
            t = W.topology(ns, dict(c, batch=n, topo_seed=int(r.randint(2**31 - 1))))
            ks = {"vel": ("ut_velocities",), "ut": ("ut_loc",), "ori": ("ut_orientations", "bs_orientations")}[o[0]]
            model.set_topology(**{k: t[k] for k in ks})


def reference(ns, c, model):
    """A fixed drop and a generation from a fixed seed."""
    model.set_topology(los=True, **W.topology(ns, dict(c, topo_seed=99)))
    s = W.scen(model)
    s.set_topology(temperature=273.0, doppler_enabled=True)
    state = {k: np_of(getattr(s, k)) for k in GEO}
    seed_all(77)
    model.set_topology(los=True, **W.topology(ns, dict(c, topo_seed=98)))
    for k in range(2):
        state[f"a{k}"], state[f"tau{k}"] = [np_of(x) for x in model(2, 1e5)]
    return state


def same_state(m, x, y, msg):
    for k, v in x.items():
        w = y[k]
        m.check(v.dtype == w.dtype and v.shape == w.shape and np.array_equal(v, w, equal_nan=v.dtype.kind in "fc"),
                "late equals early", f"{k} {msg}")


def eager(ns, m, c):
    model, ut, bs = W.make_model(ns, c)
    r = np.random.RandomState(c["seed"] % 2**31)
    ref = reference(ns, c, model)
    sizes, lives, works = [], [], []
    for i in range(c["rounds"]):
        with Work() as w:
            do_round(ns, c, model, r, m, c["ops"])
        works.append(w.n)
        if i % 4 == 3:
            # the same sizes and options at every measurement
            now = reference(ns, c, model)
            seed_all(c["seed"] + i)
            same_state(m, now, ref, f"differs after {i + 1} rounds of {len(c['ops'])} operations")
            del now
            sizes.append(held(ns, [model, ut, bs]))
            lives.append(live(ns))
    for x in sizes[1:]:
        m.check(x == sizes[0], "held", f"the model holds more after further rounds: (items, tensors, bytes) {sizes[0]} "
                f"-> {x}; all {sizes}")
    for x in lives[2:]:
        m.check(x[0] <= lives[1][0] + 3 and x[1] <= lives[1][1] + 1, "live",
                f"live (tensors, OpenNTN objects, objects) grow: {lives}")
    k = (lives[-1][2] - lives[1][2]) / (4. * len(c["ops"]) * max(1, len(lives) - 2))
    m.check(k < .5, "live", f"{k:.2f} live objects more per operation: {lives}")
    first = max(works[1:4])
    for x in works[4:]:
        m.check(x <= 1.5 * first + 50, "work", f"OpenNTN functions called per round grow: {works}")
    m.seen("eager", c["scen"], c["dir"], c["precision"], c["always"], c["ops"])
    m.sample(held=sizes[0], live=lives[-1], work=works[-1], rounds=c["rounds"])


def compiled(ns, m, c):
    tf = ns.tf
    model, _, _ = W.make_model(ns, c)
    drops = [W.topology(ns, dict(c, topo_seed=c["topo_seed"] + i)) for i in range(c["n"])]

    def make(mod):
        @tf.function
        def f(t):
            if c["inside"]:
                mod.set_topology(los=c["los"], **t)
            return mod(c["T"], 1e5)
        return f
    if not c["inside"]:
        model.set_topology(los=c["los"], **drops[0])
    f = make(model)
    for t in drops:
        f(t)
        m.check(True, "generations")
        m.check(f.experimental_get_tracing_count() == 1, "traces", "the function is traced again for drops of the same "
                "sizes")
    size = lambda g, t: len(g.get_concrete_function(t).graph.get_operations())
    n0 = size(f, drops[0])
    # the graph of an instance with a long past is no larger than that of a new one
    used, _, _ = W.make_model(ns, c)
    r = np.random.RandomState(c["seed"] % 2**31)
    for i in range(20):
        do_round(ns, c, used, r, m, (("set", c["batch"], None), ("call", 1, 1e5), ("ut",), ("vel",)))
    used.set_topology(los=c["los"], **drops[0])
    n1 = size(make(used), drops[0])
    m.check(abs(n1 - n0) <= .02 * n0, "graph size", f"{n1} operations compiled on a used instance, {n0} on a new one")
    lives = []
    for i in range(4):
        for t in drops[:6]:
            f(t)
        lives.append(live(ns))
    for x in lives[2:]:
        m.check(x[0] <= lives[1][0] + 3, "live", f"live tensors grow with executions: {lives}")
    m.seen("compiled", c["scen"], c["dir"], c["precision"], c["inside"], c["los"])


def lifetimes(ns, m, c):
    """Models, arrays and results that are no longer used leave nothing behind."""
    lives = []
    for i in range(c["models"]):
        model, ut, bs = W.make_model(ns, c)
        t = W.topology(ns, dict(c, topo_seed=c["topo_seed"] + i))
        model.set_topology(los=None, **t)
        g = model.__call__
        if c["compiled"]:
            g = ns.tf.function(lambda n, fs: model(n, fs)).get_concrete_function(c["T"], 1e5)
            out = g()
        else:
            out = g(c["T"], 1e5)
        m.check(True, "generations")
        del model, ut, bs, t, g, out
        if i % 4 == 3:
            lives.append(live(ns))
    for j, name, tol in ((0, "tensors", 3), (1, "OpenNTN objects", 1)):
        m.check(lives[-1][j] <= lives[1][j] + tol, "live", f"live {name} grow with the number of models made: {lives}")
    n = 4. * (len(lives) - 2)
    m.check((lives[-1][2] - lives[1][2]) / n < 20, "live", f"live objects grow with the number of models made: {lives}")
    m.seen("lifetimes", c["scen"], c["dir"], c["precision"], c["always"], c["compiled"])
    m.sample(live=lives[-1], models=c["models"])


def two_sample(m, x, y, msg):
    x, y = np.sort(np.ravel(x)), np.sort(np.ravel(y))
    z = np.concatenate([x, y])
    d = np.abs(np.searchsorted(x, z, "right") / len(x) - np.searchsorted(y, z, "right") / len(y)).max()
    s = d * np.sqrt(len(x) * len(y) / (len(x) + len(y)))
    m.check(s < 3.9, "stationary", f"{msg}: late drops differ from early ones, Kolmogorov statistic {s:.2f}")


def drift(ns, m, c):
    model, _, _ = W.make_model(ns, c)
    n = c["drops"]
    seq, los = [], bool(c["los"])
    mean, std = T.lsp_mean(c, los), T.lsp_std(c, los)
    with record() as tr:
        for i in range(n):
            # the same places and speeds every time: only the draws differ
            model.set_topology(los=c["los"], **W.topology(ns, dict(c, topo_seed=5)))
            for k in range(2):
                a, tau = model(1, 1e5)
            m.check(True, "generations", n=2)
            e, ci = tr.last("rays"), tr.last("cir")
            loc = lambda x: x.reshape(c["batch"], -1)
            los_a = np_of(W.scen(model).los_aoa)[:, 0]
            q = dict(ds=np.log10(e.lsp.ds[:, 0, 0]), asa=np.log10(e.lsp.asa[:, 0, 0]), sf=np.log10(e.lsp.sf[:, 0, 0]),
                     xpr=np.log10(loc(e.xpr)[:, 3]), delay=loc(e.delays)[:, 1],
                     aoa=np.mod(loc(e.aoa)[:, 5] - los_a.ravel() + 180, 360),
                     phase=loc(ci.phi)[:, 7], energy=10 * np.log10((np.abs(np_of(a)) ** 2).sum((1, 2, 3, 4, 5, 6)) + 1e-30),
                     loss=loc(tr.last("pathloss"))[:, 0])
            seq.append(q)
            tr.events.clear()
            tr.threads.clear()
    for k in seq[0]:
        x = np.stack([s[k] for s in seq]).astype(float)        # [drops, examples]
        t = n // 3
        if not np.isfinite(x).all() or np.ptp(x) == 0 or (k == "loss" and not c["sf"]):
            continue
        two_sample(m, x[:t], x[-t:], f"{k} ({c['scen']} {c['dir']} {c['precision']})")
        # successive drops are independent (of ranks, robust against censoring)
        u = np.argsort(np.argsort(x.ravel())).reshape(x.shape) / x.size - .5
        if len(np.unique(x)) > .9 * x.size:
            for lag in (1, 2):
                w = (u[lag:] * u[:-lag]).ravel()
                z = w.mean() / (1 / 12.) * np.sqrt(len(w))
                if k not in ("aoa", "energy", "loss"):         # (these have a mean of their own for every place)
                    m.check(abs(z) < 6.8, "stationary", f"{k} of drops {lag} apart are correlated, z={z:.1f}")
        m.check(len(np.unique(x, axis=0)) == n, "stationary", f"{k}: a drop repeats an earlier one")
    # against the law, over the whole run
    x = (np.stack([s["ds"] for s in seq]) - mean[0]) / std[0]
    stats.ks(m, "stationary", x, stats.normal_cdf, "delay spread over the run")
    m.seen("drift", c["scen"], c["dir"], c["precision"], c["always"], los)


def run(c, m):
    ns = boot()
    seed_all(c["seed"])
    random.seed(c["seed"])
    dict(eager=eager, compiled=compiled, drift=drift, lifetimes=lifetimes)[c["kind"]](ns, m, c)
