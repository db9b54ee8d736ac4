"""C26: the models work as the channel of Sionna's OFDM and time-domain blocks.

The blocks call the model themselves; what the model returned to them is recorded
at its public call and everything the block delivers is recomputed from it in
float64: requested time grid, frequency response or taps, received signal.
"""
import contextlib
import types

import numpy as np

from rt import match, workload as W
from rt.boot import boot, seed_all
from rt.recorder import fetches, fill, np_of, record

RULE = ("one distinct case = (block, mode, scenario, direction, band, users, antennas of both ends, symbols or samples, "
        "normalization, precision)")
MIN_EVENTS = {"time grid": 60, "response": 300, "taps": 100, "received": 100, "unit energy": 10,
              "calling conventions": 40, "new drop": 40, "coefficients:path": 300, "type": 60, "dimensions": 60, "gradient": 40}
ASSUMPTIONS = ["XLA cannot compile TensorFlow's Bessel function, so the aperture pattern is exercised eagerly and in "
               "graph mode only"]


def cases(tier, rng):
    n = {"quick": 48, "thorough": 480}[tier]
    out = []
    for i in range(n):
        mode = ("eager", "graph", "eager", "xla", "eager", "graph")[i % 6]
        pats = W.PATTERNS if mode != "xla" else ("omni", "38.901", "dlp")
        c = W.rand_cfg(rng, topo=rng.choice(("gen", "custom")), face=rng.random() < .8, ut=rng.choice((1, 1, 2, 3)), bs=1,
                       ut_arr=W.rand_array(rng, 4, pats), bs_arr=W.rand_array(rng, 4, pats),
                       precision=rng.choice(("single", "double")), pl=rng.random() < .4, sf=rng.random() < .4)
        c.update(block="ofdm" if (i // 6 + i) % 3 else "time", mode=mode, norm=rng.random() < .4,
                 fft=rng.choice((1, 2, 12, 37, 64, 75, 128)), scs=rng.choice((15e3, 30e3, 60e3, 120e3)),
                 symbols=rng.choice((1, 2, 7, 14)), cp=rng.choice((0, 3, 6)), samples=rng.choice((1, 5, 40)),
                 bw=rng.choice((1e6, 7.68e6, 30.72e6)), lags=rng.choice(((-6, 20), (0, 3), (-3, 60))), wrong=rng.choice((1, 7, 1000)))
        c["cp"] = min(c["cp"], c["fft"] - 1)
        out.append(c)
    return out


@contextlib.contextmanager
def outputs():
    """What the models return to their callers."""
    cls = boot().t.SystemLevelChannel
    old = cls.__call__
    got = []

    def call(self, *a, **k):
        r = old(self, *a, **k)
        got.append(types.SimpleNamespace(a=np_of(r[0]), tau=np_of(r[1])))
        return r
    cls.__call__ = call
    try:
        yield got
    finally:
        cls.__call__ = old


def run(c, m):
    ns = boot()
    tf, ch = ns.tf, ns.phy.channel
    double = c["precision"] == "double"
    ns.config.xla_compat = c["mode"] == "xla"
    r = np.random.RandomState(c["seed"] % 2**31)
    model, topo, _, _ = W.build(ns, c)
    other = W.topology(ns, dict(c, topo_seed=c["topo_seed"] ^ 5))
    ul = c["dir"] == "uplink"
    txa, rxa = (c["ut_arr"], c["bs_arr"]) if ul else (c["bs_arr"], c["ut_arr"])
    tx, rx = (c["ut"], 1) if ul else (1, c["ut"])
    na, nb = W.num_ant(txa), W.num_ant(rxa)
    B, ofdm, P = c["batch"], c["block"] == "ofdm", dict(precision=c["precision"])
    if ofdm:
        rg = ns.phy.ofdm.ResourceGrid(num_ofdm_symbols=c["symbols"], fft_size=c["fft"], subcarrier_spacing=c["scs"],
                                      num_tx=tx, num_streams_per_tx=na, cyclic_prefix_length=c["cp"], **P)
        block = ch.OFDMChannel(model, rg, normalize_channel=c["norm"], return_channel=True, **P)
        gen = ch.GenerateOFDMChannel(model, rg, normalize_channel=c["norm"], **P)
        T, fs = c["symbols"], c["scs"] * c["fft"] / (c["fft"] + c["cp"])
        shape = (B, tx, na, T, c["fft"])
    else:
        l0, l1 = c["lags"]
        block = ch.TimeChannel(model, c["bw"], c["samples"], l_min=l0, l_max=l1, normalize_channel=c["norm"],
                               return_channel=True, **P)
        gen = ch.GenerateTimeChannel(model, c["bw"], c["samples"], l0, l1, normalize_channel=c["norm"], **P)
        T, fs = c["samples"] + l1 - l0, c["bw"]
        shape = (B, tx, na, c["samples"])
    x = r.randn(*shape) + 1j * r.randn(*shape)
    xt = tf.constant(x, tf.complex128 if double else tf.complex64)
    box = {}

    def step(drop):
        with outputs() as got, record() as tr:
            model.set_topology(los=c["los"], **drop)
            y, h = block(xt)
            g = gen(c["wrong"])            # the batch size given to the model is ignored
        s = W.scen(model)
        box["tree"] = dict(y=np_of(y), h=np_of(h), g=np_of(g), got=got, ev=tr.events,
                           d=np_of(s.distance_3d))
        return box["tree"]
    if c["mode"] == "eager":
        go = step
    else:
        @tf.function(jit_compile=c["mode"] == "xla")
        def f(drop):
            return fetches(step(drop))

        def go(drop):
            v = f(drop)
            return fill(box["tree"], v)
    where = f"{c['block']}, {c['mode']}, {c['scen']} {c['dir']} {c['precision']}"
    res = [go(topo), go(other), go(topo)]
    want_type = np.complex128 if double else np.complex64
    for q in res:
        a, cir = q["got"], [e for k, e in q["ev"] if k == "cir"]
        m.need(len(a) == 2 and len(cir) == 2, "time grid", f"{len(a)} generations for two calls; {where}")
        for e in cir:
            m.check(e.num_time_samples == T and abs(e.sampling_frequency / fs - 1) < 1e-6, "time grid",
                    f"{e.num_time_samples} samples at {e.sampling_frequency}, expected {T} at {fs}; {where}")
        for h, o in zip((q["h"], q["g"]), a):
            m.check(h.dtype == want_type and o.a.dtype == want_type, "type", f"{h.dtype}, {o.a.dtype}; {where}")
            m.shape("dimensions", o.a, (B, rx, nb, tx, na, o.tau.shape[-1], T))
            m.shape("dimensions", o.tau, (B, rx, tx, o.a.shape[5]))
            A, tau = o.a.astype(complex), o.tau.astype(float)
            if ofdm:
                k = np.arange(c["fft"])
                f0 = (k - c["fft"] // 2 if c["fft"] % 2 == 0 else k - (c["fft"] - 1) / 2) * c["scs"]
                E = np.exp(-2j * np.pi * tau[..., None] * f0)
                E[tau > .5] = 0
                ref = np.einsum("brmtnps,brtpk->brmtnsk", A, E)
                en = (np.abs(ref) ** 2).mean((2, 4, 5, 6), keepdims=True)
                key, tol = "response", 1e-7 if double else 2e-3
            else:
                l = np.arange(l0, l1 + 1)
                E = np.sinc(l - tau[..., None] * c["bw"])
                E[tau > .5] = 0
                ref = np.einsum("brmtnps,brtpl->brmtnsl", A, E)
                en = (np.abs(ref) ** 2).sum(6, keepdims=True).mean((2, 4, 5), keepdims=True)
                key, tol = "taps", 1e-7 if double else 2e-3
            if c["norm"]:
                ref = ref / np.sqrt(np.where(en > 0, en, 1))
            sc = np.abs(ref).max((2, 4, 5, 6), keepdims=True)
            ok = (sc > 0) & (en > 1e-30)
            sc = np.where(ok, sc, 1)
            m.close(key, np.where(ok, h, 0) / sc, np.where(ok, ref, 0) / sc, atol=tol, msg=where)
            if c["norm"]:
                e2 = (np.abs(h.astype(complex)) ** 2)
                e2 = e2.mean((2, 4, 5, 6)) if ofdm else e2.sum(6).mean((2, 4, 5))
                m.close("unit energy", e2[ok[:, :, 0, :, 0, 0, 0]], 1., rtol=1e-3, msg=where)
        H = q["h"].astype(complex)
        if ofdm:
            y = np.einsum("brmtnsk,btnsk->brmsk", H, x)
        else:
            y = np.zeros((B, rx, nb, T), complex)
            for i in range(l1 - l0 + 1):
                j = np.arange(c["samples"]) + i
                y[..., j] += np.einsum("brmtns,btns->brms", H[..., j, i], x)
        # a link without energy cannot be normalised
        rest = tuple(range(2, y.ndim))
        heard = np.isfinite(H).all((2, 3, 4, 5, 6)) & (np.abs(y).max(rest) > 0)
        sc = np.where(heard, np.abs(y).max(rest), 1).reshape(B, rx, *[1] * len(rest))
        m.check(c["norm"] or np.isfinite(H).all(), "response", f"not finite; {where}")
        m.close("received", (q["y"] / sc)[heard], (y / sc)[heard], atol=1e-9 if double else 1e-4, msg=where)
        match.cir(m, "coefficients", cir[0], c["fc"], txa, rxa, double)
        m.check(not np.array_equal(a[0].a, a[1].a) or not a[0].a.any(), "new drop", f"two generations are equal; {where}")
    m.check(not np.array_equal(res[0]["got"][0].a, res[2]["got"][0].a) or not res[0]["got"][0].a.any(), "new drop", f"the same drop twice; {where}")
    if c["topo"] == "custom":
        m.close("new drop", res[0]["d"], res[2]["d"], rtol=1e-6, msg="link lengths of one drop")
    # training: the gradient passes through the block as through a constant channel
    if c["mode"] == "eager":
        v = {k: (tf.Variable(q) if k in ("ut_loc", "ut_velocities", "ut_orientations", "bs_loc") else q)
             for k, q in topo.items()}
        src = [q for q in v.values() if isinstance(q, tf.Variable)]
        with tf.GradientTape() as tape:
            tape.watch(xt)
            model.set_topology(los=c["los"], **{k: tf.convert_to_tensor(q) for k, q in v.items()})
            y, h = block(xt)
            s = float(np.abs(np_of(y)).max())        # (small gains squared would underflow in single precision)
            s = 1 / s if 1e-30 < s < 1e30 else 1.
            loss = tf.reduce_sum(tf.abs(y * tf.constant(s, y.dtype)) ** 2)
        g, *rest = tape.gradient(loss, [xt] + src)
        m.check(all(q is None for q in rest), "gradient", f"the random channel is differentiable in the topology; {where}")
        H, y, g = np_of(h).astype(complex), np_of(y).astype(complex), np_of(g)
        if np.isfinite(H).all() and s != 1.:
            y = y * s ** 2
            if ofdm:
                want = 2 * np.einsum("brmtnsk,brmsk->btnsk", H.conj(), y)
            else:
                want = np.zeros(x.shape, complex)
                for i in range(l1 - l0 + 1):
                    j = np.arange(c["samples"]) + i
                    want += 2 * np.einsum("brmtns,brms->btns", H[..., j, i].conj(), y[..., j])
            sc = np.abs(want).max()
            m.close("gradient", g / sc, want / sc, atol=1e-9 if double else 1e-3, msg=f"gradient of the received energy; {where}")
    # the same model in a block of another rate with as many samples, and back
    if c["mode"] == "eager":
        for rate in (2., 1.):
            if ofdm:
                rg2 = ns.phy.ofdm.ResourceGrid(num_ofdm_symbols=c["symbols"], fft_size=c["fft"],
                                               subcarrier_spacing=rate * c["scs"], num_tx=tx, num_streams_per_tx=na,
                                               cyclic_prefix_length=c["cp"], **P)
                gen2 = ch.GenerateOFDMChannel(model, rg2, **P)
            else:
                gen2 = ch.GenerateTimeChannel(model, rate * c["bw"], c["samples"], l0, l1, **P)
            with record() as tr:
                gen2(c["wrong"])
            e = tr.last("cir")
            m.check(e.num_time_samples == T and abs(e.sampling_frequency / (rate * fs) - 1) < 1e-6, "time grid",
                    f"{e.num_time_samples} samples at {e.sampling_frequency}; {where}")
            m.close("time grid", e.t.astype(float) * rate * fs, np.arange(T), atol=1e-3 + 1e-6 * T, msg="sample times")
            match.cir(m, "coefficients", e, c["fc"], txa, rxa, double)
    # both calling conventions, whatever the batch size given
    ns.config.xla_compat = False
    model.set_topology(los=c["los"], **topo)
    out = []
    for args in ((T, fs), (c["wrong"], T, fs), (B, T, fs)):
        seed_all(c["seed"])
        out.append([np_of(v) for v in model(*args)])
    for o in out[1:]:
        m.check(np.array_equal(o[0], out[0][0]) and np.array_equal(o[1], out[0][1]), "calling conventions", where)
    m.seen(c["block"], c["mode"], c["scen"], c["dir"], c["fc"] > 1e10, c["ut"], na, nb, T, c["norm"], c["precision"])
    m.sample(block=c["block"], mode=c["mode"], cfg=W.brief(c))
