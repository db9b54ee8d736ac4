"""C08: large-scale parameters persist until the topology changes."""
import numpy as np

from rt import tables as T, workload as W
from rt.boot import boot
from rt.recorder import LSP_FIELDS, np_of, record

RULE = ("one distinct case = (scenario, direction, band, policy, LOS request, sequence of "
        "actions: call / update of each parameter)")
MIN_EVENTS = {"same parameters": 200, "rays redrawn": 50, "parameters redrawn": 20,
              "always redrawn": 20}
ACTIONS = ("call", "call", "call", "ut_loc", "bs_loc", "in_state", "los", "ut_velocities",
           "ut_orientations", "bs_orientations", "nothing", "doppler", "atm", "one ut", "one ut",
           "one bs")


def cases(tier, rng):
    n = {"quick": 70, "thorough": 900}[tier]
    out = []
    for i in range(n):
        c = W.rand_cfg(rng, topo="custom", always=i % 3 == 2, pl=True, T=1,
                       sf=rng.random() < .6, ut=rng.choice((1, 2, 3)), batch=rng.choice((1, 2, 3)),
                       bs=rng.choice((1, 1, 2)), elev=float(rng.choice((10, 30, 50, 60, 80))))
        c["ut_arr"] = c["bs_arr"] = dict(kind="Antenna", pol="dual", ptype="VH", pattern="omni")
        c["actions"] = [rng.choice(ACTIONS) for _ in range(rng.randint(5, 9))]
        c["spread"] = 2e4
        out.append(c)
    for i in range(2 if tier == "quick" else 8):     # statistics of the always policy
        c = W.rand_cfg(rng, topo="custom", always=True, pl=False, T=1, ut=1, bs=1, batch=400,
                       los=bool(i % 2), precision="single")
        c["ut_arr"] = c["bs_arr"] = dict(kind="Antenna", pol="single", ptype="V", pattern="omni")
        c["stat"] = True
        out.append(c)
    return out


def vec(lsp, fields=("ds", "asa", "sf", "zsa")):
    return np.stack([getattr(lsp, f).astype(float) for f in fields], -1)


def run_stat(c, m):
    model, topo, ut, bs = W.build(boot(), c)
    z = []
    with record() as tr:
        for _ in range(12):
            model(c["T"], c["fs"])
    los = bool(c["los"])
    mean, std = T.lsp_mean(c, los), T.lsp_std(c, los)
    idx = [0, 3] + ([4] if los else [])
    for e in tr.of("rays"):
        x = np.stack([np.log10(e.lsp.ds), np.log10(e.lsp.sf), np.log10(e.lsp.k_factor)], -1)[:, 0, 0]
        z.append((x[:, :len(idx)] - mean[idx]) / std[idx])
    z = np.stack(z)                                # [calls, B, params]
    n = z.shape[0] * z.shape[1]
    m.check((np.abs(z.mean((0, 1))) < 6.5 / np.sqrt(n)).all(), "always statistics", "mean", got=z.mean((0, 1)))
    m.check((np.abs(z.var((0, 1)) - 1) < 6.5 * np.sqrt(2 / n) + .01).all(), "always statistics", "variance",
            got=z.var((0, 1)))
    for lag in (1, 2, 5):
        r = (z[lag:] * z[:-lag]).mean((0, 1))
        m.check((np.abs(r) < 6.5 / np.sqrt(n * (1 - lag / 12))).all(), "always statistics",
                f"generations {lag} apart are dependent", got=r)
    m.seen("stat", c["scen"], c["dir"], los)


def run(c, m):
    ns = boot()
    if c.get("stat"):
        return run_stat(c, m)
    double = c["precision"] == "double"
    model, topo, ut, bs = W.build(ns, c)
    r = np.random.RandomState(c["seed"] % 2**31)
    prev = None              # last generation in this period
    old = None               # last generation of the previous period
    with record() as tr:
        for act in ["call", "call"] + list(c["actions"]) + ["call", "call"]:
            s = W.scen(model)
            if act == "call":
                a, tau = model(c["T"], c["fs"])
                e = tr.last("rays")
                pl, ci = tr.last("pathloss"), tr.last("cir")
                tr_ = (lambda x: np.swapaxes(x, 1, 2)) if c["dir"] == "uplink" else (lambda x: x)
                m.close("same parameters", ci.k_factor, tr_(e.lsp.k_factor),
                        msg="Rician factor used is not the link's")
                if prev is not None:
                    pe, ppl, ptau = prev
                    m.close("same loss", pl, ppl, msg="path loss changed between topology changes")
                    if c["always"]:
                        d = vec(e.lsp) != vec(pe.lsp)
                        m.check(d[..., 0].all() and d.any(), "always redrawn",
                                "always policy reused large-scale parameters", n=d.shape[0])
                    else:
                        for f in LSP_FIELDS:
                            m.close("same parameters", getattr(e.lsp, f), getattr(pe.lsp, f),
                                    msg=f"{f} changed between topology changes")
                    for f in ("delays", "powers", "aoa", "zoa", "xpr"):
                        x, y = getattr(e, f), getattr(pe, f)
                        ax = tuple(range(3, x.ndim))
                        m.check((x != y).any(axis=ax).all(), "rays redrawn", f"{f} reused", n=x.shape[0])
                elif old is not None:
                    oe, opl = old
                    if oe.lsp.ds.shape == e.lsp.ds.shape:
                        d = e.lsp.ds != oe.lsp.ds
                        m.check(d.all(), "parameters redrawn",
                                "large-scale parameters kept after a topology change", n=d.size)
                prev = (e, pl, np_of(tau))
                old = None
                continue
            kw = {}
            if act in W.TOPO_KEYS:
                v = W.custom_topology(dict(c, topo_seed=int(r.randint(2**31 - 1))), np)[act]
                if act == "bs_loc":
                    v = np_of(topo["bs_loc"]).astype(float) + np.array([r.uniform(-2e3, 2e3)] * 3)
                kw[act] = ns.tf.constant(v, ns.tf.bool if act == "in_state" else topo["ut_loc"].dtype)
            elif act in ("one ut", "one bs"):     # of one example only, by little
                k = act[-2:] + "_loc"
                v = np_of(getattr(s, k)).astype(float)
                b, i = r.randint(v.shape[0]), r.randint(v.shape[1])
                v[b, i] += [50., -30., 0.] if k == "ut_loc" else [2e3, 1e3, 500.]
                kw[k] = ns.tf.constant(v, topo["ut_loc"].dtype)
            elif act == "los":
                kw["los"] = ns.tf.constant(bool(r.randint(2)))
            if act == "doppler":
                s.set_topology(doppler_enabled=bool(r.randint(2)))
            elif act == "atm":
                prev = None if prev is None else (prev[0], None, prev[2])
                basic, free = np_of(s.basic_pathloss), np_of(s.free_space_pathloss)
                s.set_topology(temperature=float(r.uniform(250, 300)))
                m.close("same loss", np_of(s.basic_pathloss), basic, msg="an atmosphere update redrew the basic loss")
                m.close("same loss", np_of(s.free_space_pathloss), free, msg="free space")
                if prev is not None:      # the loss changes, the parameters stay
                    model(c["T"], c["fs"])
                    e = tr.last("rays")
                    if not c["always"]:
                        for f in LSP_FIELDS:
                            m.close("same parameters", getattr(e.lsp, f), getattr(prev[0].lsp, f),
                                    msg=f"{f} changed by an atmosphere update")
                    prev = (e, tr.last("pathloss"), None)
            else:
                model.set_topology(**kw)
            if act in ("ut_loc", "bs_loc", "in_state", "los", "one ut", "one bs"):
                old = prev[:2] if prev is not None else old
                prev = None
    m.seen(c["scen"], c["dir"], T.band(c["fc"]), c["always"], c["los"], c["actions"])
    m.sample(cfg=W.brief(c), actions=c["actions"], always=c["always"])
