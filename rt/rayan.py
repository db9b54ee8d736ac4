"""Analysis of recorded ray angles: cluster centres, offsets, expected scatter."""
import numpy as np

from rt import tables as T
from rt.refmodel import RAY_OFFSETS

OFFS = np.sort(RAY_OFFSETS)
GH_X, GH_W = np.polynomial.hermite_e.hermegauss(48)
GH_W = GH_W / GH_W.sum()


def az_centre(az):
    """Cluster azimuth from its 20 rays (the offsets are symmetric)."""
    return np.angle(np.exp(1j * az).sum(-1))


def az_offsets(az, centre):
    """Sorted deviations of the rays from the centre, radians."""
    d = np.angle(np.exp(1j * (az - centre[..., None])))
    return np.sort(d, -1)


def zen_cos_centre(zen, spread):
    """cos of the cluster zenith; reflection at the poles leaves it unchanged."""
    kappa = np.cos(spread[..., None] * OFFS).mean(-1)
    return np.cos(zen).mean(-1) / kappa


def k_db(e):
    return 10 * np.log10(e.lsp.k_factor.astype(float))


def c_phi(c, los, kdb):
    b = np.where(los, T.value(c, "CPhiNLoS", True), T.value(c, "CPhiNLoS", False))
    return np.where(los, b * (1.1035 - .028 * kdb - .002 * kdb**2 + 1e-4 * kdb**3), b)


def c_theta(c, los, kdb):
    b = np.where(los, T.value(c, "CThetaNLoS", True), T.value(c, "CThetaNLoS", False))
    return np.where(los, b * (1.3086 + .0339 * kdb - .0077 * kdb**2 + 2e-4 * kdb**3), b)


def angle_powers(e, los):
    """Relative cluster powers that drive the angles (LOS: with the Rician term)."""
    p = e.powers.astype(float)
    k = e.lsp.k_factor.astype(float)[..., None]
    q = p / (k + 1)
    q[..., :1] += k / (k + 1)
    p = np.where(los[..., None], q, p)
    return np.clip(p / p.max(-1, keepdims=True), 1e-6, 1.0)


def scatter(c, e, los, kind, spread_deg):
    """Deterministic deviation magnitudes [radians] of every cluster."""
    z = angle_powers(e, los)
    kdb = k_db(e)
    if kind == "az":
        d = 2 * spread_deg[..., None] / 1.4 * np.sqrt(-np.log(z)) / c_phi(c, los, kdb)[..., None]
    else:
        d = -spread_deg[..., None] * np.log(z) / c_theta(c, los, kdb)[..., None]
    return np.radians(d)


def expect(f, mags, sigma):
    """E f and E f^2 of the deviation sum(+-mags) + N(0, sigma^2); vectorized
    over links. mags: list of arrays [n], sigma [n]."""
    n = len(sigma)
    e1, e2 = np.zeros(n), np.zeros(n)
    signs = np.array(np.meshgrid(*[[-1, 1]] * len(mags), indexing="ij")).reshape(len(mags), -1).T
    for s in signs:
        base = sum(a * b for a, b in zip(s, mags))
        v = f(base[:, None] + sigma[:, None] * GH_X)
        e1 += (v * GH_W).sum(1)
        e2 += (v**2 * GH_W).sum(1)
    return e1 / len(signs), e2 / len(signs)
