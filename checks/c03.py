"""C03: per-link gain = path loss and shadow fading, once, as configured."""
import numpy as np

from rt import refmodel as R, tables as T, workload as W
from rt.boot import boot
from rt.recorder import np_of, record

RULE = ("one distinct case = (scenario, direction, band, LOS mix, path loss on/off, "
        "shadow fading on/off, LSP policy, users, stations, precision)")
MIN_EVENTS = {"gain": 200, "total": 50, "end-to-end": 50, "off": 50}
ASSUMPTIONS = ["gas absorption accepted between the published variants of the "
               "P.676 water-vapour constants (0.2 % apart)"]


def cases(tier, rng):
    n = {"quick": 72, "thorough": 800}[tier]
    out = []
    for i in range(n):
        c = W.rand_cfg(rng, pl=bool(i & 1), sf=bool(i & 2), dir=("uplink", "downlink")[i // 4 % 2],
                       precision=rng.choice(("single", "double")), topo="custom",
                       bs=rng.choice((1, 1, 2)), ut=rng.choice((2, 3, 5)),
                       batch=rng.choice((1, 2, 4)), los=rng.choice((None, None, True, False)),
                       T=rng.choice((1, 3)), always=rng.random() < .3,
                       height=W.rand_height(rng, sat_only=False))
        c["heights"] = [c["height"], 7e5, 2e6, 2e4][:c["batch"]]
        c["spread"] = rng.choice((50.0, 2e4))
        out.append(c)
    return out


def run(c, m):
    ns = boot()
    double = c["precision"] == "double"
    rt = 1e-9 if double else 2e-5
    model, topo, ut, bs = W.build(ns, c)
    with record() as tr:
        outs = []
        for _ in range(2):
            a, tau = model(c["T"], c["fs"])
            outs.append((np_of(a), np_of(tau), tr.last("cir"), tr.last("rays").lsp))
    s = W.scen(model)
    los = np_of(s.los)
    tr_ = (lambda x: np.swapaxes(x, 1, 2)) if c["dir"] == "uplink" else (lambda x: x)
    basic, gas, sci, ent = (np_of(x).astype(float) for x in (
        s.basic_pathloss, s.gas_pathloss, s.scintillation_pathloss, s.entry_pathloss))
    total = np.broadcast_to(basic + gas + sci + ent, los.shape)
    dmin = float(np.min(R.slant_range(np_of(s.bs_loc)[:, :, 2].astype(float), c["elev"])))
    fs = R.fspl(c["fc"], R.slant_range(np_of(s.bs_loc)[:, :, 2].astype(float), c["elev"]))[:, :, None]
    det = fs + T.per_link(c, "CL", los)
    g0, g1 = R.gas_interval(c["fc"], c["elev"])
    sc = R.scintillation(c["fc"], c["elev"])
    if not c["sf"]:
        # no random shadowing anywhere: the whole loss is the reference's
        m.close("basic", basic, np.broadcast_to(det, los.shape),
                atol=1e-8 if double else 2e-4 + 10.0 / dmin)
    for a, tau, e, lsp in outs:
        sf = lsp.sf.astype(float)
        gain = np.ones(los.shape)
        if c["pl"]:
            gain = gain * 10 ** (-total / 20)
        if c["sf"]:
            gain = gain * np.sqrt(sf)
        h = e.h.astype(complex)                        # B,tx,rx,P,rxa,txa,T
        got = np.transpose(a.astype(complex), (0, 3, 1, 5, 2, 4, 6))
        gt = tr_(gain)
        key = "gain" if (c["pl"] or c["sf"]) else "off"
        for b, t, r in np.ndindex(*gt.shape):
            sc_ = np.abs(h[b, t, r]).max() * gt[b, t, r]
            if sc_ > 0:
                m.close(key, got[b, t, r] / sc_, h[b, t, r] * gt[b, t, r] / sc_, atol=rt,
                        msg=f"link {(b, t, r)} gain {gt[b, t, r]:.6g}")
        m.close("delays", np.swapaxes(tau, 1, 2), e.delays, atol=0)
        if c["pl"]:
            # the loss the user sees, without asking the code for its parts
            with np.errstate(all="ignore"):
                lossdb = -20 * np.log10(np.abs(got).max(axis=(3, 4, 5, 6)) /
                                        np.abs(h).max(axis=(3, 4, 5, 6)))
            lossdb = tr_(lossdb)
            ok = np.isfinite(lossdb)
            if not c["sf"]:
                lo = np.broadcast_to(det + g0 + sc, los.shape)
                hi = np.broadcast_to(det + g1 + sc, los.shape)
                tol = 1e-6 if double else 2e-3 + 10.0 / dmin
                m.check(((lossdb >= lo - tol) & (lossdb <= hi + tol))[ok].all(), "end-to-end",
                        "loss differs from free space + clutter + gas + scintillation",
                        n=int(ok.sum()), got=lossdb, want=lo)
            m.count("links with path loss", ok.sum())
    if c["pl"]:
        for p in tr.of("pathloss"):
            m.close("total", p, total, atol=1e-8 if double else 1e-4,
                    msg="total path loss = basic + gas + scintillation + entry")
    if c["pl"] and c["sf"]:
        rand = basic - np.broadcast_to(det, los.shape)
        m.count("links with path loss and shadowing", rand.size)
        sig = T.per_link(c, "sigmaSF", los)
        m.check((np.abs(rand) < 7.5 * sig).all(), "basic with shadowing",
                "basic path loss is further from free space + clutter than its shadowing allows",
                random_db=rand, sigma=sig)
        m.check(np.abs(rand).max() < 1e-2, "double-shadowing",
                "the path loss of the link contains a random shadowing term although "
                "the shadow-fading factor is applied as well", random_db=rand)
    mix = "mixed" if los.any() and not los.all() else ("los" if los.all() else "nlos")
    m.seen(c["scen"], c["dir"], T.band(c["fc"]), mix, c["pl"], c["sf"], c["always"],
           c["ut"], c["bs"], c["precision"])
    m.sample(cfg=W.brief(c), gain=gain.ravel()[:3], loss_db=total.ravel()[:3])
