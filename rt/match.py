"""Comparison of an observed coefficients generation with the reference."""
import numpy as np

from rt import refmodel as R


def links(shape):
    return np.ndindex(*shape)


def cir(m, key, e, fc, tx_arr, rx_arr, double, tol=None):
    """Every path coefficient and delay of the recorded event against the
    superposition formula; paths of equal delay are compared as a group."""
    p = e.rays.powers
    B, T, Rx, C = p.shape
    ref_h, ref_d, los, los_ph = R.cir(e, fc, tx_arr, rx_arr)
    P = ref_d.shape[3]
    nt = len(R.array_size(tx_arr)), len(R.array_size(rx_arr))
    m.shape(key + ":shape", e.h, (B, T, Rx, P, nt[1], nt[0], e.num_time_samples))
    m.shape(key + ":shape", e.delays, (B, T, Rx, P))
    # phase error budget of single precision: eps * largest phase
    if tol is None:
        if double:
            tol = 1e-8
        else:
            span = (e.num_time_samples - 1) / e.sampling_frequency
            w = 2 * np.pi * fc / R.C0 * 8000.0 * span
            tol = 3e-3 + 4e-7 * w
            if "aperture" in (tx_arr["pattern"], rx_arr["pattern"]):
                tol += .03        # a narrow beam: its boresight angle from a rounded cosine
    dtol = 1e-12 if double else 1e-6
    # single precision does not resolve the nulls of the aperture pattern
    floor = 1e-4 if not double and "aperture" in (tx_arr["pattern"], rx_arr["pattern"]) else 1e-12
    K = np.asarray(e.k_factor, float)
    is_los = np.asarray(e.topology.los, bool)
    n_ok = n_tie = 0
    for b, i, j in links((B, T, Rx)):
        o = np.argsort(ref_d[b, i, j], kind="stable")
        d = ref_d[b, i, j][o]
        want = ref_h[b, i, j][o]
        got = e.h[b, i, j].astype(complex)
        gd = e.delays[b, i, j].astype(float)
        real = d < 0.5
        m.close(key + ":delay", gd[real], d[real],
                atol=dtol * max(d[real].max(), 1e-9) + (0 if double else 1e-13),
                rtol=dtol)
        scale = np.sqrt(np.abs(want) ** 2).max()
        k = K[b, i, j]
        lw = 0.0
        if is_los[b, i, j]:
            lw = np.sqrt(k / (k + 1))
            want = want * np.sqrt(1 / (k + 1))
            scale = max(np.abs(want).max(), lw * np.abs(los[b, i, j]).max())
        scale = max(scale, floor)
        eps = 1e-9 if double else 2e-6
        near = np.abs(np.diff(d)) <= eps * np.maximum(np.abs(d[1:]), 1e-9)
        group = np.concatenate([[0], np.cumsum(~near)])
        for g in np.unique(group[real]):
            idx = np.where((group == g) & real)[0]
            has_los = lw > 0 and 0 in idx
            if len(idx) > 1:
                n_tie += 1
            if has_los:
                lv = lw * los[b, i, j] * (los_ph[b, i, j] if double else 1.0)
                r = got[idx].sum(0) - want[idx].sum(0)
                if double:
                    lt = tol + 6e-16 * 2 * np.pi * fc / R.C0 * \
                        float(np.max(e.topology.distance_3d)) * 4
                    m.close(key + ":los", r / scale, lv / scale, atol=lt,
                            msg=f"LOS path of link {(b, i, j)}")
                else:
                    # the absolute carrier phase is beyond single precision:
                    # compare up to one common phase
                    dot = np.vdot(lv, r)
                    if abs(dot) > 0:
                        r = r * np.conj(dot) / abs(dot)
                    m.close(key + ":los", r / scale, lv / scale,
                            atol=2 * tol * max(1, len(idx)),
                            msg=f"LOS path of link {(b, i, j)} up to its carrier phase")
                if len(idx) > 1:
                    continue
            elif len(idx) == 1:
                q = idx[0]
                m.close(key + ":path", got[q] / scale, want[q] / scale, atol=tol,
                        msg=f"path {q} of link {(b, i, j)}")
            else:        # same delay: any order
                left = list(idx)
                ok = True
                for q in idx:
                    best = min(left, key=lambda w: np.abs(got[q] - want[w]).max())
                    ok &= bool(np.abs(got[q] - want[best]).max() <= tol * scale)
                    left.remove(best)
                m.check(ok, key + ":path", f"paths {idx} of equal delay, link {(b, i, j)}")
            n_ok += len(idx)
        if (~real).any():
            m.close(key + ":absent", got[~real], 0.0, atol=0,
                    msg=f"paths that do not exist in link {(b, i, j)}")
    m.count("paths compared", n_ok)
    m.count("groups of equal delay", n_tie)


def snapshot(m, key, e, c, scen, np_of):
    """The coefficients stage was given the scenario's own topology, with the
    two ends in the right roles."""
    t = e.topology
    ul = c["dir"] == "uplink"
    tr = (lambda x: np.swapaxes(x, 1, 2)) if ul else (lambda x: x)
    rad = lambda x: np.radians(np_of(x).astype(float))
    at = 1e-10 if c["precision"] == "double" else 2e-6
    pairs = dict(los_aoa="los_aod" if ul else "los_aoa",
                 los_aod="los_aoa" if ul else "los_aod",
                 los_zoa="los_zod" if ul else "los_zoa",
                 los_zod="los_zoa" if ul else "los_zod")
    for k, s in pairs.items():
        m.angle_close(key + ":" + k, getattr(t, k), tr(rad(getattr(scen, s))),
                      atol=at, period=2 * np.pi)
    m.close(key + ":los", t.los, tr(np_of(scen.los)))
    m.close(key + ":distance", t.distance_3d, tr(np_of(scen.distance_3d)), rtol=1e-6)
    uo, bo = np_of(scen.ut_orientations), np_of(scen.bs_orientations)
    m.close(key + ":tx orientation", t.tx_orientations, uo if ul else bo, atol=1e-6)
    m.close(key + ":rx orientation", t.rx_orientations, bo if ul else uo, atol=1e-6)
    m.close(key + ":velocity", t.velocities, np_of(scen.ut_velocities), atol=1e-6)
    m.check(t.moving_end == ("tx" if ul else "rx"), key + ":moving end")
