"""Independent float64 reference of what the standards define. numpy only.

3GPP TR 38.901 (7.1, 7.3, 7.5), 3GPP TR 38.811 (6.x), ITU-R P.676, P.618.
"""
import math

import numpy as np
from scipy.special import j1

C0 = 299792458.0
R_E = 6371000.0
PI = math.pi

RAY_OFFSETS = np.array([s * v for v in (0.0447, 0.1413, 0.2492, 0.3715, 0.5129,
                                        0.6797, 0.8844, 1.1481, 1.5195, 2.1551)
                        for s in (1, -1)])
SUB_CLUSTERS = ((0, 1, 2, 3, 4, 5, 6, 7, 18, 19), (8, 9, 10, 11, 16, 17),
                (12, 13, 14, 15))
SUB_OFFSETS = (0.0, 1.28, 2.56)


# ------------------------------------------------------------- geometry
def slant_range(height, elev_deg):
    s = math.sin(math.radians(elev_deg))
    h = np.asarray(height, float)
    return np.sqrt((R_E * s) ** 2 + h ** 2 + 2 * h * R_E) - R_E * s


def geometry(ut, bs, elev):
    """ut [B,U,3], bs [B,S,3] -> dict of [B,S,U] (angles in degrees)."""
    d = ut[:, None, :, :] - bs[:, :, None, :]
    d2 = np.hypot(d[..., 0], d[..., 1])
    az = np.degrees(np.arctan2(d[..., 1], d[..., 0]))
    zd = np.degrees(np.arctan2(d2, d[..., 2]))
    d3 = np.broadcast_to(slant_range(bs[:, :, 2], elev)[:, :, None], d2.shape)
    uu = ut[:, :, None, :2] - ut[:, None, :, :2]
    return dict(d2=d2, d3=d3, aod=np.mod(az, 360), aoa=np.mod(az + 180, 360),
                zod=zd, zoa=180 - zd, uu=np.hypot(uu[..., 0], uu[..., 1]))


def nearest_angle(elev):
    return int(round(elev / 10.0) * 10)


# ------------------------------------------------------------- arrays
def element_positions(a, fc):
    """Positions [m] and polarization index (0/1) of every element.

    Order: per panel (columns of panels first, going down the rows), first all
    elements of polarization 1 then of polarization 2; elements of a panel
    column by column, top down.
    """
    lam = C0 / fc
    p = 2 if a["pol"] == "dual" else 1
    r, c = a.get("rows", 1), a.get("cols", 1)
    pr, pc = a.get("prow", 1), a.get("pcol", 1)
    vs = a.get("vs") or 0.5
    hs = a.get("hs") or 0.5
    pvs = a.get("pvs") or (r - 1) * vs + 0.5
    phs = a.get("phs") or (c - 1) * hs + 0.5
    pos, pol = [], []
    for pj in range(pc):
        for pi in range(pr):
            oy = (pj - (pc - 1) / 2) * phs
            oz = -(pi - (pr - 1) / 2) * pvs
            for q in range(p):
                for j in range(c):
                    for i in range(r):
                        pos.append((0.0, oy + (j - (c - 1) / 2) * hs,
                                    oz - (i - (r - 1) / 2) * vs))
                        pol.append(q)
    return np.array(pos) * lam, np.array(pol)


def array_size(a):
    return element_positions(a, 2e9)[1]


def slants(a):
    return {"V": (0.0,), "H": (PI / 2,), "VH": (0.0, PI / 2),
            "cross": (-PI / 4, PI / 4)}[a["ptype"]]


def pattern_power(name, theta, phi):
    """Radiated power (linear), phi in (-pi, pi], theta in [0, pi]."""
    theta, phi = np.asarray(theta, float), np.asarray(phi, float)
    if name == "omni":
        return np.ones(np.broadcast(theta, phi).shape)
    t, p = np.degrees(theta), np.degrees(phi)
    if name == "38.901":
        av = -np.minimum(12 * ((t - 90) / 65) ** 2, 30)
        ah = -np.minimum(12 * (p / 65) ** 2, 30)
        return 10 ** ((8 - np.minimum(-(av + ah), 30)) / 10)
    if name == "dlp":
        av = -np.minimum(12 * ((t - 90) / 90) ** 2, 25)
        ah = -np.minimum(12 * (p / 90) ** 2, 25)
        return 10 ** (-np.minimum(-(av + ah), 25) / 10)
    if name == "aperture":
        ka = 2 * PI * 10
        u = np.sin(theta) * np.cos(phi)
        # sin of the off-boresight angle without cancellation
        s = np.sqrt(np.clip((np.sin(theta) * np.sin(phi)) ** 2 + np.cos(theta) ** 2, 0, 1))
        x = ka * s
        with np.errstate(all="ignore"):
            g = np.where(x < 1e-7, 1.0, 4 * (j1(x) / np.where(x == 0, 1, x)) ** 2)
        return np.where(u < 0, 0.0, g)
    raise KeyError(name)


def rotation(o):
    """7.1-4: composite rotation matrix of orientations [...,3]."""
    a, b, c = o[..., 0], o[..., 1], o[..., 2]
    z, one = np.zeros_like(a), np.ones_like(a)

    def m(rows):
        return np.stack([np.stack(r, -1) for r in rows], -2)
    rz = m([[np.cos(a), -np.sin(a), z], [np.sin(a), np.cos(a), z], [z, z, one]])
    ry = m([[np.cos(b), z, np.sin(b)], [z, one, z], [-np.sin(b), z, np.cos(b)]])
    rx = m([[one, z, z], [z, np.cos(c), -np.sin(c)], [z, np.sin(c), np.cos(c)]])
    return rz @ ry @ rx


def unit(theta, phi):
    return np.stack([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi),
                     np.cos(theta)], -1)


def e_theta(theta, phi):
    return np.stack([np.cos(theta) * np.cos(phi), np.cos(theta) * np.sin(phi),
                     -np.sin(theta)], -1)


def e_phi(theta, phi):
    return np.stack([-np.sin(phi), np.cos(phi), np.zeros_like(phi)], -1)


def global_field(a, orient, theta, phi, q):
    """Field (theta, phi components in GCS) of polarization q's element.

    orient broadcasts to theta's shape + [3]. Uses the geometric definition:
    the LCS field vector is rotated into the GCS and projected on the GCS
    spherical unit vectors (equivalent to 7.1-11/15).
    """
    R = rotation(orient)
    r = unit(theta, phi)
    rl = np.einsum("...ji,...j->...i", R, r)            # R^T r
    tl = np.arccos(np.clip(rl[..., 2], -1, 1))
    pl = np.arctan2(rl[..., 1], rl[..., 0])
    amp = np.sqrt(pattern_power(a["pattern"], tl, pl))
    z = slants(a)[q]
    f = (amp * math.cos(z))[..., None] * e_theta(tl, pl) + \
        (amp * math.sin(z))[..., None] * e_phi(tl, pl)
    fg = np.einsum("...ij,...j->...i", R, f)
    return np.stack([(fg * e_theta(theta, phi)).sum(-1),
                     (fg * e_phi(theta, phi)).sum(-1)], -1)


def array_response(a, fc, orient, theta, phi):
    """Per element: complex array phase times GCS field.

    theta, phi [B,tx,rx,C,M]; orient broadcastable [...,3].
    -> [B,tx,rx,C,M,ant,2]
    """
    pos, pol = element_positions(a, fc)
    R = rotation(orient)
    pg = np.einsum("...ij,aj->...ai", R, pos)            # [...,ant,3]
    r = unit(theta, phi)
    ph = np.exp(2j * PI * fc / C0 * np.einsum("...i,...ai->...a", r, pg))
    f = np.stack([global_field(a, orient, theta, phi, q)
                  for q in range(len(slants(a)))], -2)    # [...,npol,2]
    return ph[..., None] * f[..., pol, :]


# ------------------------------------------------------------- CIR
def faraday(fc):
    psi = math.radians(108.0 / (fc / 1e9) ** 2)
    return np.array([[math.cos(psi), -math.sin(psi)], [math.sin(psi), math.cos(psi)]])


def cir(e, fc, tx_arr, rx_arr, per_ray=False):
    """Reference of the recorded coefficients generation `e` (recorder 'cir').

    Returns per link the unsorted scattered paths and the LOS term:
    h_paths [B,tx,rx,P,rxa,txa,T], delays [B,tx,rx,P], h_los [B,tx,rx,rxa,txa,T]
    (both without the Rician weights), plus magnitude scales.
    """
    rays, topo = e.rays, e.topology
    sat = np.broadcast_to(np.asarray(topo.bs_height, float).ravel() >= 600000.0,
                          (rays.aoa.shape[0],))
    t = np.arange(e.num_time_samples) / e.sampling_frequency
    txo = topo.tx_orientations.astype(float)
    rxo = topo.rx_orientations.astype(float)
    vel = topo.velocities.astype(float)
    k0 = 2 * PI * fc / C0
    ss = np.broadcast_to(np.asarray(topo.sat_speed, float).ravel(), sat.shape)
    w_sat = np.where(sat & topo.doppler_enabled, ss, 0.0) * k0      # [B]

    def doppler(zoa, aoa, zod, aod):
        if topo.moving_end == "rx":
            v = vel[:, None, :, None, None, :]
            r = unit(zoa, aoa)
        else:
            v = vel[:, :, None, None, None, :]
            r = unit(zod, aod)
        w = k0 * (r * v).sum(-1) + w_sat[:, None, None, None, None]
        return np.exp(1j * w[..., None] * t)

    def combine(aoa, zoa, aod, zod, H):
        rx = array_response(rx_arr, fc, rxo[:, None, :, None, None, :], zoa, aoa)
        tx = array_response(tx_arr, fc, txo[:, :, None, None, None, :], zod, aod)
        F = faraday(fc)
        Hf = H @ F
        H = np.where(sat.reshape(-1, 1, 1, 1, 1, 1, 1), Hf, H)
        return np.einsum("...rp,...pq,...tq->...rt", rx, H, tx), \
            doppler(zoa, aoa, zod, aod)

    aoa, zoa, aod, zod = (rays.aoa.astype(float), rays.zoa.astype(float),
                          rays.aod.astype(float), rays.zod.astype(float))
    phi = e.phi.astype(float)
    x = np.sqrt(1.0 / rays.xpr.astype(float))
    H = np.stack([np.stack([np.exp(1j * phi[..., 0]), x * np.exp(1j * phi[..., 1])], -1),
                  np.stack([x * np.exp(1j * phi[..., 2]), np.exp(1j * phi[..., 3])], -1)], -2)
    g, dop = combine(aoa, zoa, aod, zod, H)
    M = aoa.shape[4]
    p = rays.powers.astype(float)
    full = g[..., None] * dop[..., None, None, :] * \
        np.sqrt(p / M)[..., None, None, None, None]
    # LOS
    hl = np.array([[1.0, 0], [0, -1.0]], complex).reshape(1, 1, 1, 1, 1, 2, 2)
    ex = lambda y: np.asarray(y, float)[:, :, :, None, None]
    hl = np.broadcast_to(hl, ex(topo.los_aoa).shape + (2, 2))
    gl, dl = combine(ex(topo.los_aoa), ex(topo.los_zoa), ex(topo.los_aod),
                     ex(topo.los_zod), hl)
    d3 = np.asarray(topo.distance_3d, float)
    los = gl[:, :, :, 0, 0, :, :, None] * dl[:, :, :, 0, 0, None, None, :]
    los_phase = np.exp(1j * np.mod(k0 * d3, 2 * PI))
    if per_ray:
        return full, los, los_phase
    B, T_, R_, C = p.shape
    delays = rays.delays.astype(float)
    out_h, out_d = [], []
    order = np.argsort(-p, axis=-1, kind="stable")
    take = lambda arr, i: np.take_along_axis(
        arr, order[..., i:i + 1].reshape(order.shape[:3] + (1,) + (1,) * (arr.ndim - 4)), 3)[:, :, :, 0]
    sub = e.c_ds is not None            # without it clusters are not split
    cds = np.asarray(e.c_ds, float) if sub else None
    for i in range(C):
        hi, di = take(full, i), take(delays, i)
        if sub and i < 2:
            for idx, off in zip(SUB_CLUSTERS, SUB_OFFSETS):
                out_h.append(hi[:, :, :, list(idx)].sum(3))
                out_d.append(di + off * cds)
        else:
            out_h.append(hi.sum(3))
            out_d.append(di)
    return np.stack(out_h, 3), np.stack(out_d, 3), los, los_phase


# ------------------------------------------------------------- link budget
def fspl(fc, d):
    return 32.45 + 20 * math.log10(fc / 1e9) + 20 * np.log10(d)


def gas_zenith(f, T, p, rho, c81=8.6, c15=1.58):
    """P.676 annex 2: zenith attenuation [dB], f in GHz below 54."""
    rt, rp = 288.0 / T, p / 1013.0
    n1 = 0.955 * rp * rt ** 0.68 + 0.006 * rho
    n2 = 0.735 * rp * rt ** 0.5 + 0.0353 * rt ** 4 * rho

    def g(f, fi):
        return 1 + ((f - fi) / (f + fi)) ** 2
    ex = math.exp
    yw = (3.98 * n1 * ex(2.23 * (1 - rt)) / ((f - 22.235) ** 2 + 9.42 * n1 ** 2) * g(f, 22)
          + 11.96 * n1 * ex(0.7 * (1 - rt)) / ((f - 183.31) ** 2 + 11.14 * n1 ** 2)
          + 0.081 * n1 * ex(6.44 * (1 - rt)) / ((f - 321.226) ** 2 + 6.29 * n1 ** 2)
          + 3.66 * n1 * ex(1.6 * (1 - rt)) / ((f - 325.153) ** 2 + 9.22 * n1 ** 2)
          + 25.37 * n1 * ex(1.09 * (1 - rt)) / (f - 380) ** 2
          + 17.4 * n1 * ex(1.46 * (1 - rt)) / (f - 448) ** 2
          + 844.6 * n1 * ex(0.17 * (1 - rt)) / (f - 557) ** 2 * g(f, 557)
          + 290 * n1 * ex(0.41 * (1 - rt)) / (f - 752) ** 2 * g(f, 752)
          + 83328 * n2 * ex(0.99 * (1 - rt)) / (f - 1780) ** 2 * g(f, 1780)) \
        * f ** 2 * rt ** 2.5 * rho * 1e-4
    sw = 1.013 / (1 + ex(-c81 * (rp - 0.57)))
    hw = 1.66 * (1 + 1.39 * sw / ((f - 22.235) ** 2 + 2.56 * sw)
                 + 3.37 * sw / ((f - 183.31) ** 2 + 4.69 * sw)
                 + c15 * sw / ((f - 325.1) ** 2 + 2.89 * sw))

    def phi(a, b, c, d):
        return rp ** a * rt ** b * ex(c * (1 - rp) + d * (1 - rt))
    x1 = phi(0.0717, -1.8132, 0.0156, -1.6515)
    x2 = phi(0.5146, -4.6368, -0.1921, -5.7416)
    x3 = phi(0.3414, -6.5851, 0.2130, -8.5854)
    yo = (7.2 * rt ** 2.8 / (f ** 2 + 0.34 * rp ** 2 * rt ** 1.6)
          + 0.62 * x3 / ((54 - f) ** (1.16 * x1) + 0.83 * x2)) * f ** 2 * rp ** 2 * 1e-3
    t1 = 4.64 / (1 + 0.066 * rp ** -2.3) * ex(-((f - 59.7) / (2.87 + 12.4 * ex(-7.9 * rp))) ** 2)
    t2 = 0.14 * ex(2.12 * rp) / ((f - 118.75) ** 2 + 0.031 * ex(2.2 * rp))
    t3 = 0.0114 / (1 + 0.14 * rp ** -2.6) * f * \
        (-0.0247 + 0.0001 * f + 1.61e-6 * f ** 2) / \
        (1 - 0.0169 * f + 4.1e-5 * f ** 2 + 3.2e-7 * f ** 3)
    ho = 6.1 / (1 + 0.17 * rp ** -1.1) * (1 + t1 + t2 + t3)
    return yo * ho + yw * hw


def gas_interval(fc, elev, T=273.0, p=1020.0, rho=7.5):
    """Loss between the two published variants of the water-vapour constants."""
    v = [gas_zenith(fc / 1e9, T, p, rho, a, b) / math.sin(math.radians(elev))
         for a in (8.1, 8.6) for b in (1.5, 1.58)]
    return min(v), max(v)


def scintillation(fc, elev, T=273.0, H=50.0, D=3.6, eff=0.5):
    f = fc / 1e9
    if f < 6:
        return 1.1 * (f / 4.0) ** -1.5 / math.sqrt(2)
    tc = T - 273.0
    es = 6.1121 * math.exp(17.502 * tc / (tc + 240.97))
    nwet = 3732 * H * es / (T ** 2)
    sref = 3.6e-3 + nwet * 1e-4
    s = math.sin(math.radians(elev))
    L = 2000.0 / (math.sqrt(s * s + 2.35e-4) + s)
    deff2 = eff * D * D
    x = 1.22 * deff2 * f / L
    if x >= 7.0:
        g = 0.0
    else:
        v = 3.86 * (x * x + 1) ** (11 / 12) * math.sin(11 / 6 * math.atan(1 / x)) \
            - 7.08 * x ** (5 / 6)
        g = math.sqrt(max(v, 0.0))
    sig = sref * f ** (7 / 12) * g / s ** 1.2
    lp = math.log10(0.01)
    a = -0.061 * lp ** 3 + 0.072 * lp ** 2 - 1.71 * lp + 3.0
    return a * sig


def orbital_speed(h):
    return np.sqrt(6.6743e-11 * 5.972e24 / (R_E + np.asarray(h, float)))


# ------------------------------------------------------------- K polynomials
def c_phi(c_nlos, k_db, los):
    return np.where(los, c_nlos * (1.1035 - 0.028 * k_db - 0.002 * k_db ** 2
                                   + 0.0001 * k_db ** 3), c_nlos)


def c_theta(c_nlos, k_db, los):
    return np.where(los, c_nlos * (1.3086 + 0.0339 * k_db - 0.0077 * k_db ** 2
                                   + 0.0002 * k_db ** 3), c_nlos)


def delay_scale(k_db):
    return 0.7705 - 0.0433 * k_db + 0.0002 * k_db ** 2 + 0.000017 * k_db ** 3
