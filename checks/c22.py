"""C22: the conversion utilities are the defining sums, for every input."""
import math
import types

import numpy as np

from rt import workload as W
from rt.boot import boot
from rt.recorder import np_of

RULE = "one distinct case = (utility, sizes, precision, normalization, delay layout, execution mode)"
MIN_EVENTS = {"frequencies": 500, "grids": 500, "lags": 100, "ofdm sum": 2000, "tap sum": 2000,
              "normalized": 60, "linear": 60, "time to frequency": 500, "on-grid paths": 300,
              "exponential matrix": 1000, "one ring matrix": 500, "hermitian": 50, "positive": 50,
              "model channel": 500, "angles": 300, "mode": 40}


def cases(tier, rng):
    k = {"quick": 1, "thorough": 15}[tier]
    out = []
    for i in range(24 * k):
        out.append(dict(kind="paths", precision=rng.choice(("single", "double")), dims=[rng.choice((1, 2, 3)) for _ in range(5)],
                        P=rng.choice((1, 2, 7, 24, 25, 40, 65)), T=rng.choice((1, 3, 14)), per_ant=rng.random() < .4,
                        N=rng.choice((1, 2, 3, 12, 31, 64, 73)), spread=rng.choice((0., 1e-9, 1e-7, 3e-6)),
                        scs=rng.choice((15e3, 120e3, 1e6)), graph=rng.random() < .4,
                        dark=rng.random() < .3, early=rng.choice((0., 0., 0., .3, 1.))))
    for i in range(12 * k):
        out.append(dict(kind="grids", n=[rng.randint(1, 4096) for _ in range(8)] + [1, 2, 3],
                        precision=rng.choice(("single", "double", None)), config=rng.choice(("single", "double"))))
    for i in range(10 * k):
        out.append(dict(kind="matrices", precision=rng.choice(("single", "double", None)),
                        config=rng.choice(("single", "double"))))
    for i in range(8 * k):
        c = W.rand_cfg(rng, topo="custom", batch=rng.choice((1, 2)), ut=rng.choice((1, 2)), pl=False, sf=False,
                       height=W.rand_height(rng, False))
        out.append(dict(kind="model", cfg=c, N=rng.choice((16, 31)), scs=rng.choice((15e3, 120e3))))
    return out


def fourier(f, a, tau):
    """sum over paths; a [B,r,ra,t,ta,P,T], tau [B,r,ra,t,ta,P]."""
    e = np.exp(-2j * np.pi * f * tau[..., None])                   # [...,P,N]
    return np.einsum("brstupk,brstupn->brstukn", a, e)


def taps(w, a, tau, l):
    return np.einsum("brstupk,brstupn->brstukn", a, np.sinc(l - w * tau[..., None]))


def paths(ns, m, c):
    tf, u = ns.tf, ns.utils
    r = np.random.RandomState(c["seed"] % 2**31)
    double = c["precision"] == "double"
    rd, cd = (tf.float64, tf.complex128) if double else (tf.float32, tf.complex64)
    nd = np.float64 if double else np.float32
    B, nr, nra, nt, nta = c["dims"]
    P, T = c["P"], c["T"]
    a = (r.randn(B, nr, nra, nt, nta, P, T) + 1j * r.randn(B, nr, nra, nt, nta, P, T)) * 10 ** r.uniform(-9, 1)
    if c["dark"]:
        a[0, 0, :, 0] = 0
        if P > 1:
            a[..., -1, :] = 0
    shape = (B, nr, nra, nt, nta, P) if c["per_ant"] else (B, nr, nt, P)
    # (delays relative to an arbitrary origin: some are negative)
    tau = ((r.rand(*shape) - c["early"]) * c["spread"]).astype(nd)
    if P > 2:
        tau[..., 1] = tau[..., 0]
    a = a.astype(np.complex128 if double else np.complex64)
    full = (tau if c["per_ant"] else np.broadcast_to(tau[:, :, None, :, None], (B, nr, nra, nt, nta, P))).astype(float)
    A, TAU = tf.constant(a), tf.constant(tau)
    scale = float(np.abs(a).sum(5).max()) or 1.
    eps = 1e-12 if double else 2e-6
    N = c["N"]
    f = u.subcarrier_frequencies(N, c["scs"], precision=c["precision"])
    m.check(f.dtype == rd, "frequencies", f"dtype {f.dtype}")
    fn = np.asarray(np_of(f), float)
    wrap = (lambda g, **k: tf.function(lambda *x: g(*x, **k))) if c["graph"] else (lambda g, **k: lambda *x: g(*x, **k))
    # frequency response
    want = fourier(fn, a.astype(complex), full)
    h = wrap(u.cir_to_ofdm_channel)(f, A, TAU)
    m.check(h.dtype == cd, "ofdm sum", f"dtype {h.dtype}")
    m.shape("ofdm sum", h, (B, nr, nra, nt, nta, T, N))
    m.close("ofdm sum", np_of(h) / scale, want / scale, atol=eps * (1 + 2 * np.pi * np.abs(fn).max() * c["spread"]) * 2,
            msg=f"{P} paths, {N} subcarriers")
    hn = np_of(wrap(u.cir_to_ofdm_channel, normalize=True)(f, A, TAU)).astype(complex)
    e = (np.abs(hn) ** 2).mean(axis=(2, 4, 5, 6))
    lit = (np.abs(want) ** 2).mean(axis=(2, 4, 5, 6)) > 0
    # in single precision tiny energies underflow: that is rounding, not the law
    safe = lit & ((np.abs(want) ** 2).mean(axis=(2, 4, 5, 6)) > (0 if double else 1e-25))
    m.close("normalized", e[safe], 1., rtol=1e-10 if double else 1e-4, msg="OFDM energy per link")
    m.check(np.isfinite(hn).all() and (hn[~np.broadcast_to(lit[:, :, None, :, None, None, None], hn.shape)] == 0).all(),
            "normalized", "a link without paths")
    z = np.moveaxis(hn, (1, 3), (1, 2)).reshape(B, nr, nt, -1)
    y = np.moveaxis(want, (1, 3), (1, 2)).reshape(B, nr, nt, -1)
    g = np.sqrt(np.maximum((np.abs(y) ** 2).mean(-1, keepdims=True), 1e-300))
    m.close("normalized", z[safe], (y / g)[safe], atol=eps * 50 * (1 + 2 * np.pi * np.abs(fn).max() * c["spread"]),
            msg="normalization changes the shape")
    # arbitrary frequencies, not only a grid
    f2 = r.uniform(-1e6, 1e6, 5).astype(nd)
    m.close("ofdm sum", np_of(u.cir_to_ofdm_channel(tf.constant(f2), A, TAU)) / scale,
            fourier(f2.astype(float), a.astype(complex), full) / scale,
            atol=eps * (1 + 2 * np.pi * 1e6 * c["spread"]) * 2, msg="free frequencies")
    # taps
    bw = float(r.choice((1e5, 1e6, 20e6)))
    lmin, lmax = u.time_lag_discrete_time_channel(bw, max(c["spread"], 1e-9))
    m.check(int(lmin) == -6 and int(lmax) >= bw * c["spread"] + 5.999 and int(lmax) <= bw * max(c["spread"], 1e-9) + 7.001,
            "lags", f"{int(lmin)}..{int(lmax)} for {bw} Hz, {c['spread']} s")
    l0, l1 = (int(lmin), int(lmax)) if r.rand() < .5 else (-int(r.randint(0, 9)), int(r.randint(0, 20)))
    l = np.arange(l0, l1 + 1)
    wt = taps(bw, a.astype(complex), full, l)
    ht = wrap(u.cir_to_time_channel, l_min=l0, l_max=l1)(bw, A, TAU) if not c["graph"] else \
        tf.function(lambda x, y: u.cir_to_time_channel(bw, x, y, l_min=l0, l_max=l1))(A, TAU)
    m.check(ht.dtype == cd, "tap sum", f"dtype {ht.dtype}")
    m.shape("tap sum", ht, (B, nr, nra, nt, nta, T, len(l)))
    m.close("tap sum", np_of(ht) / scale, wt / scale, atol=eps * (4 + 4 * bw * c["spread"] + abs(l0) + l1),
            msg=f"{P} paths, taps {l0}..{l1}")
    hn = np_of(u.cir_to_time_channel(bw, A, TAU, l_min=l0, l_max=l1, normalize=True)).astype(complex)
    e = (np.abs(hn) ** 2).sum(6).mean(axis=(2, 4, 5))
    ew = (np.abs(wt) ** 2).sum(6).mean(axis=(2, 4, 5))
    safe = ew > (0 if double else 1e-25)
    m.close("normalized", e[safe], 1., rtol=1e-10 if double else 1e-4, msg="tap energy per link")
    m.check(np.isfinite(hn).all(), "normalized", "taps not finite")
    # linearity
    a2 = (r.randn(*a.shape) + 1j * r.randn(*a.shape)) * np.abs(a).max()
    a2 = a2.astype(a.dtype)
    s = nd(r.uniform(-2, 2))
    for what, g in (("ofdm", lambda x: u.cir_to_ofdm_channel(f, x, TAU)),
                    ("taps", lambda x: u.cir_to_time_channel(bw, x, TAU, l0, l1))):
        x, y, z = (np_of(g(tf.constant(v.astype(a.dtype)))) for v in (a, a2, a + s * a2))
        sc = float((np.abs(a) + 2 * np.abs(a2)).sum(5).max()) or 1.
        m.close("linear", z / sc, (x + s * y) / sc, atol=eps * 5, msg=what)
    # taps to frequency: the discrete Fourier transform with negative lags
    nfft, cp, nsym = int(r.choice((32, 33, 64))), int(r.choice((0, 3, 8))), int(r.choice((1, 3)))
    rg = types.SimpleNamespace(fft_size=nfft, cyclic_prefix_length=cp, num_time_samples=nsym * (nfft + cp))
    l0, l1 = -int(r.randint(0, 7)), int(r.randint(0, 12))
    ht = (r.randn(2, nr, rg.num_time_samples, l1 - l0 + 1) + 1j * r.randn(2, nr, rg.num_time_samples, l1 - l0 + 1)).astype(a.dtype)
    hf = u.time_to_ofdm_channel(tf.constant(ht), rg, l0)
    m.shape("time to frequency", hf, (2, nr, nsym, nfft))
    n = np.arange(nfft) - nfft // 2
    ker = np.exp(-2j * np.pi * np.outer(np.arange(l0, l1 + 1), n) / nfft)
    b = cp + np.arange(nsym) * (nfft + cp)
    m.close("time to frequency", np_of(hf), ht.astype(complex)[:, :, b] @ ker, atol=eps * 300,
            msg=f"fft {nfft}, cyclic prefix {cp}, lags {l0}..{l1}")
    # paths on the sampling grid: taps and frequency response describe the same channel
    bw = float(c["scs"]) * nfft
    k = r.randint(0, 10, (B, nr, nt, P))
    tg = (k / bw).astype(nd)
    ag = np.repeat(a[..., :1], 1, -1)
    t1 = u.cir_to_time_channel(bw, tf.constant(ag), tf.constant(tg), -6, 16)
    rg = types.SimpleNamespace(fft_size=nfft, cyclic_prefix_length=0, num_time_samples=1)
    x = np_of(u.time_to_ofdm_channel(t1, rg, -6))
    y = np_of(u.cir_to_ofdm_channel(u.subcarrier_frequencies(nfft, c["scs"], precision=c["precision"]),
                                    tf.constant(ag), tf.constant(tg)))
    m.close("on-grid paths", x / scale, y / scale, atol=eps * 400, msg=f"fft {nfft}")
    m.check(True, "mode")
    m.check(True, "mode")
    m.seen("paths", tuple(c["dims"]), P, T, N, c["precision"], c["per_ant"], c["graph"])


def grids(ns, m, c):
    tf, u = ns.tf, ns.utils
    r = np.random.RandomState(c["seed"] % 2**31)
    ns.config.precision = c["config"]
    p = c["precision"] or c["config"]
    rd = tf.float64 if p == "double" else tf.float32
    rt = 1e-12 if p == "double" else 1e-6
    for n in c["n"]:
        d = float(r.choice((1., 15e3, 120e3, 1e-6, r.uniform(.1, 1e4))))
        k = np.arange(n) - n // 2
        f = u.subcarrier_frequencies(n, d, precision=c["precision"])
        m.check(f.dtype == rd, "frequencies", f"dtype {f.dtype}, wanted {rd}")
        m.close("frequencies", np_of(f), k * d, rtol=rt, msg=f"{n} subcarriers {d} apart")
        g = tf.function(lambda: u.subcarrier_frequencies(n, d, precision=c["precision"]))()
        m.close("mode", np_of(g), k * d, rtol=rt, msg="graph")
        if n > 1:
            t, f = u.time_frequency_vector(n, d, precision=c["precision"])
            m.check(t.dtype == rd and f.dtype == rd, "grids", f"dtypes {t.dtype} {f.dtype}")
            m.close("grids", np_of(t), k * d, rtol=rt, msg=f"time, {n} samples of {d}")
            m.close("grids", np_of(f), k / (n * d), rtol=rt * 4, msg=f"frequency, {n} samples of {d}")
            m.close("grids", float(t[n // 2]), 0., msg="zero is in the grid")
        bw, md = float(10 ** r.uniform(4, 8)), float(10 ** r.uniform(-8, -4))
        l0, l1 = (int(x) for x in u.time_lag_discrete_time_channel(bw, md))
        x = bw * md
        m.check(l0 == -6 and x + 6 - 1e-5 * (x + 1) <= l1 <= x + 7 + 1e-5 * (x + 1), "lags", f"{l0}..{l1} for W tau {x}")
        l0, l1 = (int(x) for x in u.time_lag_discrete_time_channel(bw))
        x = bw * 3e-6
        m.check(l0 == -6 and x + 6 - 1e-5 * (x + 1) <= l1 <= x + 7 + 1e-5 * (x + 1), "lags", f"default {l0}..{l1} for {x}")
    # angles
    a = r.uniform(-5000, 5000, 50)
    for dt, e in ((tf.float32, 2e-3), (tf.float64, 1e-10)):
        w = np_of(u.wrap_angle_0_360(tf.constant(a, dt))).astype(float)
        m.check((w >= 0).all() and (w <= 360).all(), "angles", "wrap range")
        m.angle_close("angles", w, a, atol=e, msg="wrap")
        m.close("angles", np_of(u.deg_2_rad(tf.constant(a, dt))), np.radians(a), rtol=1e-6 if dt == tf.float32 else 1e-14)
        m.close("angles", np_of(u.rad_2_deg(tf.constant(a, dt))), np.degrees(a), rtol=1e-6 if dt == tf.float32 else 1e-14)
    m.seen("grids", c["seed"])


def toeplitz(m, key, R, want, eps, msg):
    m.close(key, R, want, atol=eps, msg=msg)
    m.close("hermitian", R, np.conj(np.swapaxes(R, -1, -2)), atol=eps, msg=msg)
    w = np.linalg.eigvalsh((R + np.conj(np.swapaxes(R, -1, -2))).astype(complex) / 2)
    m.check(w.min() >= -eps * R.shape[-1] * 4, "positive", f"{msg}: smallest eigenvalue {w.min()}", n=w.size)
    d = np.diagonal(R, axis1=-2, axis2=-1)
    m.close(key, d, 1., atol=eps, msg=msg + " diagonal")


def matrices(ns, m, c):
    tf, u = ns.tf, ns.utils
    r = np.random.RandomState(c["seed"] % 2**31)
    ns.config.precision = c["config"]
    p = c["precision"] or c["config"]
    cd = tf.complex128 if p == "double" else tf.complex64
    eps = 1e-10 if p == "double" else 2e-4
    for shape in ((), (3,), (2, 4)):
        n = int(r.choice((1, 2, 4, 16)))
        a = r.rand(*shape) * r.choice((.5, .9, .999)) * np.exp(2j * np.pi * r.rand(*shape))
        if shape:
            a.flat[0] = 0.
            a.flat[-1] = .7
        k = np.arange(n)
        D = k[:, None] - k[None]
        with np.errstate(all="ignore"):
            want = np.where(D >= 0, np.asarray(a)[..., None, None] ** np.maximum(D, 0),
                            np.conj(np.asarray(a))[..., None, None] ** np.maximum(-D, 0))
        for x in ((a, tf.constant(a, cd)) if shape else (complex(a), tf.constant(complex(a), cd))):
            R = u.exp_corr_mat(x, n, precision=c["precision"])
            m.check(R.dtype == cd, "exponential matrix", f"dtype {R.dtype}")
            m.shape("exponential matrix", R, tuple(shape) + (n, n))
            toeplitz(m, "exponential matrix", np_of(R), want, eps, f"exponential, size {n}, shape {shape}")
        phi = r.uniform(-180, 180, shape)
        dh = float(r.choice((.5, r.uniform(.1, 2))))
        sg = float(r.choice((15., r.uniform(.1, 15))))
        x = 2 * np.pi * dh * D
        ph = np.radians(phi)[..., None, None]
        want = np.exp(1j * x * np.sin(ph)) * np.exp(-np.radians(sg) ** 2 / 2 * (x * np.cos(ph)) ** 2)
        R = u.one_ring_corr_mat(phi if shape else float(phi), n, dh, sg, precision=c["precision"])
        m.check(R.dtype == cd, "one ring matrix", f"dtype {R.dtype}")
        m.shape("one ring matrix", R, tuple(shape) + (n, n))
        toeplitz(m, "one ring matrix", np_of(R), want, eps, f"one ring, size {n}, shape {shape}")
        R = u.one_ring_corr_mat(phi if shape else float(phi), n, precision=c["precision"])
        x = np.pi * D
        want = np.exp(1j * x * np.sin(ph)) * np.exp(-np.radians(15.) ** 2 / 2 * (x * np.cos(ph)) ** 2)
        m.close("one ring matrix", np_of(R), want, atol=eps, msg="defaults")
    for bad in (1.0, 1.5, -1.2, 1j):
        try:
            u.exp_corr_mat(tf.constant([.1, bad], tf.complex64), 3, precision="single")
            m.check(False, "exponential matrix", f"{bad} accepted")
        except Exception as e:                       # noqa: BLE001
            m.check("smaller than one" in str(e) or isinstance(e, (ValueError, AssertionError)), "exponential matrix", repr(e)[:200])
    m.seen("matrices", c["seed"])


def model(ns, m, c):
    """The conversions of a real channel, through the library's generators too."""
    from sionna.phy.channel import GenerateOFDMChannel, GenerateTimeChannel
    from sionna.phy.ofdm import ResourceGrid
    cfg = c["cfg"]
    u = ns.utils
    p = cfg["precision"]
    mod, _, _, _ = W.build(ns, cfg)
    rg = ResourceGrid(num_ofdm_symbols=4, fft_size=c["N"], subcarrier_spacing=c["scs"], cyclic_prefix_length=3,
                      precision=p)
    a, tau = mod(rg.num_ofdm_symbols, 1 / float(rg.ofdm_symbol_duration))
    an, tn = np_of(a).astype(complex), np_of(tau).astype(float)
    span = float(tn[tn < .5].max())          # paths that do not exist are at one second, with zero weight
    full = np.broadcast_to(tn[:, :, None, :, None], an.shape[:-1])
    f = u.subcarrier_frequencies(rg.fft_size, rg.subcarrier_spacing, precision=p)
    h = np_of(u.cir_to_ofdm_channel(f, a, tau))
    s = float(np.abs(an).sum(5).max()) or 1.
    m.close("model channel", h / s, fourier(np_of(f).astype(float), an, full) / s,
            atol=(1e-9 if p == "double" else 1e-4) + 3e-7 * 2 * np.pi * float(np.abs(np_of(f)).max()) * span)
    bw = float(rg.bandwidth)
    l0, l1 = (int(x) for x in u.time_lag_discrete_time_channel(bw, span))
    ht = np_of(u.cir_to_time_channel(bw, a, tau, l0, l1))
    m.close("model channel", ht / s, taps(bw, an, full, np.arange(l0, l1 + 1)) / s,
            atol=(1e-9 if p == "double" else 1e-4) + 3e-6 * (bw * span + 12))
    if p == "single":
        ul = cfg["dir"] == "uplink"
        num = (cfg["ut"], cfg["bs"]) if ul else (cfg["bs"], cfg["ut"])
        arr = (cfg["ut_arr"], cfg["bs_arr"]) if ul else (cfg["bs_arr"], cfg["ut_arr"])
        want = (cfg["batch"], num[1], W.num_ant(arr[1]), num[0], W.num_ant(arr[0]))
        hf = GenerateOFDMChannel(mod, rg, normalize_channel=False)(cfg["batch"])
        m.shape("model channel", hf, want + (rg.num_ofdm_symbols, rg.fft_size))
        m.check(np.isfinite(np_of(hf)).all(), "model channel", "OFDM generator")
        ht = GenerateTimeChannel(mod, bw, 7, l0, l1)(cfg["batch"])
        m.shape("model channel", ht, want + (7 + l1 - l0, l1 - l0 + 1))
        m.check(np.isfinite(np_of(ht)).all(), "model channel", "time generator")
    m.seen("model", cfg["scen"], cfg["dir"], p)


def run(c, m):
    ns = boot()
    dict(paths=paths, grids=grids, matrices=matrices, model=model)[c["kind"]](ns, m, c)
    m.sample(**{k: v for k, v in c.items() if k not in ("cfg",)})
