"""C19: generation is reproducible, instances are isolated, nothing passed in or
returned earlier changes, and no call depends on earlier ones beyond the
documented large-scale persistence."""
import random

import numpy as np

from rt import workload as W
from rt.boot import boot, seed_all
from rt.recorder import np_of

RULE = "one distinct case = (kind, configurations of the live instances, sequence of operations)"
MIN_EVENTS = {"repeat": 60, "other seed": 40, "isolation": 60, "inputs kept": 100, "results kept": 60,
              "history independence": 30, "repeat of one call": 30, "fresh": 20, "shared arrays": 20}
SCEN_ATTR = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "los", "indoor",
             "distance_2d", "distance_3d", "los_aod", "los_aoa", "los_zod", "los_zoa", "basic_pathloss",
             "gas_pathloss", "scintillation_pathloss", "entry_pathloss", "free_space_pathloss",
             "matrix_ut_distance_2d", "lsp_log_mean", "lsp_log_std", "elevation_angle", "carrier_frequency",
             "doppler_enabled")


def op_list(rng, n):
    ops = [("set", rng.randrange(2**31), rng.choice((None, True, False)))]
    for _ in range(n):
        r = rng.random()
        if r < .4:
            ops.append(("call", rng.choice((1, 2, 3)), rng.choice((1e4, 1e6))))
        elif r < .55:
            ops.append(("set", rng.randrange(2**31), rng.choice((None, None, True, False))))
        elif r < .65:
            ops.append(("gen", rng.randrange(2**31)))
        elif r < .75:
            ops.append(("vel", rng.randrange(2**31)))
        elif r < .85:
            ops.append(("ut", rng.randrange(2**31)))
        elif r < .95:
            ops.append(("ori", rng.randrange(2**31)))
        else:
            ops.append(("atm", rng.choice((260., 273., 300.))))
    ops.append(("call", 2, 1e5))
    return ops


def cfg(rng, **k):
    return W.rand_cfg(rng, topo="custom", height=W.rand_height(rng, False), always=rng.random() < .3,
                      precision=rng.choice(("single", "double")), **k)


def cases(tier, rng):
    k = {"quick": 1, "thorough": 12}[tier]
    out = [dict(kind="repeat", cfgs=[cfg(rng) for _ in range(rng.choice((1, 2)))], ops=op_list(rng, 7),
                order=rng.randrange(2**31)) for _ in range(18 * k)]
    out += [dict(kind="isolation", cfgs=[cfg(rng), cfg(rng)], ops=op_list(rng, 5), ops2=op_list(rng, 6),
                 same=rng.random() < .5) for _ in range(18 * k)]
    out += [dict(kind="history", cfgs=[cfg(rng)], ops=op_list(rng, 6), ops2=[("set", rng.randrange(2**31), True)],
                 ) for _ in range(18 * k)]
    out += [dict(kind="calls", cfgs=[cfg(rng)], n=3) for _ in range(14 * k)]
    return out


class Live:
    """A model instance with the means to drive it and to see what it holds."""

    def __init__(self, ns, c, arrs=None):
        self.ns, self.c = ns, dict(c)
        if arrs is None:
            self.model, self.ut, self.bs = W.make_model(ns, c)
        else:
            self.ut, self.bs = arrs
            self.model = ns.models[c["scen"]](
                carrier_frequency=c["fc"], ut_array=self.ut, bs_array=self.bs, direction=c["dir"],
                elevation_angle=c["elev"], enable_pathloss=c["pl"], enable_shadow_fading=c["sf"],
                doppler_enabled=c["doppler"], always_generate_lsp=c["always"], precision=c["precision"])
        self.inputs, self.results = [], []
        rd = ns.tf.float64 if c["precision"] == "double" else ns.tf.float32
        self.rd = rd

    def _in(self, d):
        for k, v in d.items():
            if hasattr(v, "shape"):
                self.inputs.append((k, v, np.array(np_of(v), copy=True)))
        return d

    def topo(self, seed):
        return self._in(W.topology(self.ns, dict(self.c, topo_seed=seed)))

    def do(self, op):
        s = W.scen(self.model)
        k = op[0]
        if k == "set":
            self.model.set_topology(los=op[2], **self.topo(op[1]))
            return self.state()
        if k == "gen":
            t = self.ns.utils.gen_single_sector_topology(
                batch_size=self.c["batch"], num_ut=self.c["ut"], scenario=self.c["scen"],
                bs_height=self.c["height"], elevation_angle=self.c["elev"], precision=self.c["precision"])
            if self.c["bs"] == 1:
                self.model.set_topology(**self._in(dict(zip(W.TOPO_KEYS, t))))
            return [np_of(x) for x in t] + self.state()
        if k == "vel":
            self.model.set_topology(ut_velocities=self.topo(op[1])["ut_velocities"])
            return self.state()
        if k == "ut":
            self.model.set_topology(ut_loc=self.topo(op[1])["ut_loc"])
            return self.state()
        if k == "ori":
            t = self.topo(op[1])
            self.model.set_topology(ut_orientations=t["ut_orientations"], bs_orientations=t["bs_orientations"])
            return self.state()
        if k == "atm":
            s.set_topology(temperature=op[1])
            return self.state()
        a, tau = self.model(op[1], op[2])
        self.results.append((a, np.array(np_of(a), copy=True)))
        self.results.append((tau, np.array(np_of(tau), copy=True)))
        return [np_of(a), np_of(tau)]

    def state(self):
        s = W.scen(self.model)
        out = []
        for k in SCEN_ATTR:
            v = getattr(s, k, None)
            if v is not None:
                out.append(np.array(np_of(v), copy=True))
        return out

    def arrays(self):
        out = []
        for a in (self.ut, self.bs):
            out += [np_of(a.ant_pos), np_of(a.ant_ind_pol1), np_of(a.num_ant)]
        return [np.array(x, copy=True) for x in out]

    def kept(self, m):
        for k, v, c in self.inputs:
            m.check(same(np_of(v), c), "inputs kept", f"the {k} passed in has changed")
        for v, c in self.results:
            m.check(same(np_of(v), c), "results kept", "a result returned earlier has changed")


def same(x, y):
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y, equal_nan=x.dtype.kind in "fc")


def equal(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def differs(a, b):
    return any(not same(x, y) for x, y in zip(a, b))


def repeat(ns, m, c):
    """The whole session twice from one seed, and once from another."""
    def session(seed):
        seed_all(seed)
        r = random.Random(c["order"])
        live = [Live(ns, x) for x in c["cfgs"]]
        out = []
        todo = [[(i, o) for o in c["ops"]] for i in range(len(live))]
        while any(todo):
            i = r.choice([i for i, t in enumerate(todo) if t])
            _, o = todo[i].pop(0)
            out.append((i, o[0], live[i].do(o)))
        for x in live:
            x.kept(m)
        return out
    a, b, d = session(11), session(11), session(12)
    for (i, o, x), (_, _, y), (_, _, z) in zip(a, b, d):
        m.check(equal(x, y), "repeat", f"operation {o} of instance {i} differs under the same seed; "
                f"{c['cfgs'][i]['scen']} {c['cfgs'][i]['dir']}")
        if o == "call" and np.abs(x[0]).max() > 0:
            m.check(not same(x[0], z[0]), "other seed", "another seed gives the same channel")
        elif o == "gen":
            m.check(not same(x[0], z[0]), "other seed", "another seed gives the same topology")


def isolation(ns, m, c):
    """Instance A's operations with and without B being driven in between."""
    shared = c["same"]
    ca, cb = c["cfgs"]
    if shared:
        cb = dict(cb, fc=ca["fc"], precision=ca["precision"], ut_arr=ca["ut_arr"], bs_arr=ca["bs_arr"])

    def session(with_b):
        seed_all(21)
        A = Live(ns, ca)
        ar0 = A.arrays()
        B = None
        out = []
        o2 = list(c["ops2"])
        for n, o in enumerate(c["ops"]):
            if with_b:
                st = A.state() if n else None
                if B is None:
                    B = Live(ns, cb, arrs=(A.ut, A.bs) if shared else None)
                for _ in range(2):
                    if o2:
                        B.do(o2.pop(0))
                if st is not None:
                    m.check(equal(st, A.state()), "isolation", "driving one instance changed another's state")
            seed_all(100 + n)
            out.append((o[0], A.do(o)))
        A.kept(m)
        if B is not None:
            B.kept(m)
        m.check(equal(ar0, A.arrays()), "shared arrays", "an array changed while in use")
        return out
    for (o, x), (_, y) in zip(session(False), session(True)):
        m.check(equal(x, y), "isolation", f"operation {o} depends on another live instance")


def history(ns, m, c):
    """A complete topology makes a used instance equal to a fresh one."""
    cc = c["cfgs"][0]
    old, new = Live(ns, cc), Live(ns, cc)
    for o in c["ops"]:
        old.do(o)
    last = c["ops2"][0]
    res = []
    for x in (old, new):
        W.scen(x.model).set_topology
        seed_all(31)
        x.topo(1)
        if x is old:                 # documented: atmosphere persists until given again
            W.scen(x.model).set_topology(temperature=273.0)
        seed_all(31)
        r = [x.do(last)]
        for n in range(2):
            seed_all(40 + n)
            r.append(x.do(("call", 2, 1e5)))
        res.append(r)
    for n, (x, y) in enumerate(zip(*res)):
        m.check(equal(x, y), "history independence", f"{'topology' if n == 0 else 'call'} of an instance with a "
                f"history differs from a fresh one: {cc['scen']} {cc['dir']} {[o[0] for o in c['ops']]}")
    old.kept(m)


def calls(ns, m, c):
    cc = c["cfgs"][0]
    x = Live(ns, cc)
    x.do(("set", cc["topo_seed"], cc["los"]))
    st = x.state()
    outs = []
    for n in range(c["n"]):
        seed_all(51)
        outs.append(x.do(("call", 2, 1e5)))
        m.check(equal(st, x.state()), "repeat of one call", "a generation changed the scenario")
    for o in outs[1:]:
        m.check(equal(o, outs[0]), "repeat of one call", "the same call from the same seed differs: a generation "
                "left something behind")
    fresh = [x.do(("call", 2, 1e5)) for _ in range(3)]
    seed_all(51)
    for i in range(3):
        for j in range(i):
            if np.abs(fresh[i][0]).max() > 0:
                m.check(not same(fresh[i][0], fresh[j][0]), "fresh", "two generations in a row are identical")
    # results are independent of the global seed's origin: numpy and python generators are not consumed elsewhere
    x.kept(m)


def run(c, m):
    ns = boot()
    dict(repeat=repeat, isolation=isolation, history=history, calls=calls)[c["kind"]](ns, m, c)
    m.seen(c["kind"], *[(x["scen"], x["dir"], x["batch"], x["ut"], x["precision"], x["always"]) for x in c["cfgs"]],
           tuple(o[0] for o in c.get("ops", [])))
    m.sample(kind=c["kind"], instances=[W.brief(x) for x in c["cfgs"]], ops=[o[0] for o in c.get("ops", [])])
