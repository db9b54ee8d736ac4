"""C31: options left out act as their documented defaults, positions and keywords are
interchangeable, and objects report what they were configured with."""
import random

import numpy as np

from rt import refmodel as R, workload as W
from rt.boot import boot, seed_all
from rt.core import Stop
from rt.recorder import np_of

RULE = "one distinct case = (callable, number of positional arguments, options left out, values of the others)"
MIN_EVENTS = {"same result": 1500, "report": 800, "default": 100}
SCN = {"dur": "DenseUrbanScenario", "urb": "UrbanScenario", "sur": "SubUrbanScenario"}
MODEL = dict(enable_pathloss=True, enable_shadow_fading=True, average_street_width=20.0, average_building_height=5.0,
             always_generate_lsp=False, doppler_enabled=True, precision=None)
# documented order of the arguments; options with their default
SIG = dict(
    model=(("carrier_frequency", "ut_array", "bs_array", "direction", "elevation_angle"), MODEL),
    scenario=(("carrier_frequency", "ut_array", "bs_array", "direction", "elevation_angle"),
              {k: v for k, v in MODEL.items() if k != "always_generate_lsp"}),
    set_topology=(("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state"), dict(los=None)),
    call=(("num_time_samples", "sampling_frequency"), {}),
    Antenna=(("polarization", "polarization_type", "antenna_pattern", "carrier_frequency"), dict(precision=None)),
    AntennaArray=(("num_rows", "num_cols", "polarization", "polarization_type", "antenna_pattern", "carrier_frequency"),
                  dict(vertical_spacing=None, horizontal_spacing=None, precision=None)),
    PanelArray=(("num_rows_per_panel", "num_cols_per_panel", "polarization", "polarization_type", "antenna_pattern",
                 "carrier_frequency"),
                dict(num_rows=1, num_cols=1, panel_vertical_spacing=None, panel_horizontal_spacing=None,
                     element_vertical_spacing=None, element_horizontal_spacing=None, precision=None)),
    AntennaPanel=(("num_rows", "num_cols", "polarization", "vertical_spacing", "horizontal_spacing"),
                  dict(precision=None)),
    AntennaElement=(("pattern",), dict(slant_angle=0.0, precision=None)),
    gen_single_sector_topology=(
        ("batch_size", "num_ut", "scenario"),
        dict(bs_height=None, elevation_angle=None, isd=None, min_ut_height=None, max_ut_height=None,
             indoor_probability=None, min_ut_velocity=None, max_ut_velocity=None, precision=None)),
    set_3gpp_scenario_parameters=(
        ("scenario",),
        dict(isd=None, bs_height=None, elevation_angle=None, min_ut_height=None, max_ut_height=None,
             indoor_probability=None, min_ut_velocity=None, max_ut_velocity=None, precision=None)),
    drop_uts_in_sector=(("batch_size", "num_ut", "bs_height", "elevation_angle", "isd"), dict(precision=None)),
    subcarrier_frequencies=(("num_subcarriers", "subcarrier_spacing"), dict(precision=None)),
    time_frequency_vector=(("num_samples", "sample_duration"), dict(precision=None)),
    time_lag_discrete_time_channel=(("bandwidth",), dict(maximum_delay_spread=3e-6)),
    cir_to_ofdm_channel=(("frequencies", "a", "tau"), dict(normalize=False)),
    cir_to_time_channel=(("bandwidth", "a", "tau", "l_min", "l_max"), dict(normalize=False)),
    exp_corr_mat=(("a", "n"), dict(precision=None)),
    one_ring_corr_mat=(("phi_deg", "num_ant"), dict(d_h=0.5, sigma_phi_deg=15, precision=None)),
    sample_bernoulli=(("shape", "p"), dict(precision=None)),
    LSP=(("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd"), {}),
    Rays=(("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr"), {}),
    Topology=(("velocities", "moving_end", "los_aoa", "los_aod", "los_zoa", "los_zod", "los", "distance_3d",
               "tx_orientations", "rx_orientations", "bs_height", "elevation_angle", "doppler_enabled"), {}),
)
# values equal to what None stands for
SECTOR = dict(isd=dict(dur=200., urb=500., sur=5000.), bs_height=600e3, elevation_angle=80., min_ut_height=1.5,
              max_ut_height=1.5, indoor_probability=0., min_ut_velocity=0., max_ut_velocity=0.)


def cases(tier, rng):
    n = {"quick": 12, "thorough": 120}[tier]
    out = []
    for i in range(3 * n):
        c = W.rand_cfg(rng, topo="custom", batch=rng.choice((1, 2)), ut=rng.choice((1, 2, 3)), bs=rng.choice((1, 2)),
                       T=rng.choice((1, 3)), history=False, pl=True, sf=True, doppler=True, always=False,
                       precision=rng.choice(("single", "single", "double")), height=rng.choice((6e5, 1.2e6, 2e5)))
        out.append(dict(c, kind="model"))
    for i in range(2 * n):
        out.append(dict(kind="arrays", precision=rng.choice(("single", "double")), fc=W.rand_fc(rng),
                        arrs=[W.rand_array(rng) for _ in range(6)]))
    for i in range(2 * n):
        out.append(dict(kind="utils", precision=rng.choice(("single", "double")), scen=rng.choice(W.SCEN)))
    return out


def ways(rng, name, given, free=()):
    """Ways of writing the same call: (positional, keywords, what was left out). `given` holds a value for every
    argument; options in `free` have their default's value and may be left out."""
    req, opt = SIG[name]
    order = list(req) + list(opt)
    out = []
    for n, leave in ((0, ()), (len(req), ()), (len(order), ()), (0, free), (len(req), free), (None, None), (None, None)):
        if leave is None:
            leave = [k for k in free if rng.random() < .5]
        if n is None:
            n = rng.randint(0, len(order))
        pos = order[:n]
        for k in pos:
            if k in leave:       # nothing positional after something left out
                pos = pos[:pos.index(k)]
                break
        kw = [k for k in order if k not in pos and k not in leave]
        rng.shuffle(kw)
        out.append(([given[k] for k in pos], {k: given[k] for k in kw}, tuple(leave)))
    return out


def flat(x):
    ns = boot()
    if isinstance(x, (list, tuple)):
        return [b for y in x for b in flat(y)]
    if x is None:
        return []
    if isinstance(x, (str, bool)):
        return [np.array(x)]
    return [np.array(np_of(x), copy=True)]


def same(a, b):
    return len(a) == len(b) and all(x.dtype == y.dtype and x.shape == y.shape and
                                    np.array_equal(x, y, equal_nan=x.dtype.kind in "fc") for x, y in zip(a, b))


def compare(m, rng, name, fun, given, free=(), look=flat, seed=5):
    ref = None
    for pos, kw, left in ways(rng, name, given, free):
        seed_all(seed)
        try:
            got = look(fun(*pos, **kw))
        except Stop:
            raise
        except Exception as e:                   # noqa: BLE001
            m.fail("same result", f"{name}: {len(pos)} arguments by position, {sorted(kw)} by name: "
                   f"{type(e).__name__}: {str(e)[:200]}")
            continue
        if ref is None:
            ref = got
            continue
        m.check(same(ref, got), "same result", f"{name}: {len(pos)} arguments by position, {sorted(kw)} by name, "
                f"{sorted(left)} left out: the result differs from all given by name")
        m.seen(name, len(pos), sorted(left))
    return ref


def models(ns, m, c):
    rng = random.Random(c["seed"])
    ns.config.precision = c["precision"]
    double = c["precision"] == "double"
    topo = W.topology(ns, c)
    ut = W.make_array(ns, c["ut_arr"], c["fc"], None)
    bs = W.make_array(ns, c["bs_arr"], c["fc"], None)
    base = dict(carrier_frequency=c["fc"], ut_array=ut, bs_array=bs, direction=c["dir"], elevation_angle=c["elev"])
    given = dict(base, **MODEL)
    # some options away from their default: these are not left out
    for k, v in (("enable_pathloss", False), ("enable_shadow_fading", False), ("always_generate_lsp", True),
                 ("doppler_enabled", False), ("average_street_width", 33.), ("average_building_height", 9.)):
        if rng.random() < .3:
            given[k] = v
    free = [k for k, v in MODEL.items() if given[k] == v]
    los = rng.choice((None, True, False))
    tg = dict(topo, los=los)
    setting = ways(rng, "set_topology", tg, ("los",) if los is None else ())
    report = dict(carrier_frequency=c["fc"], direction=c["dir"], elevation_angle=c["elev"],
                  pathloss_enabled=given["enable_pathloss"], shadow_fading_enabled=given["enable_shadow_fading"],
                  doppler_enabled=given["doppler_enabled"], average_street_width=given["average_street_width"],
                  average_building_height=given["average_building_height"], lambda_0=R.C0 / c["fc"],
                  batch_size=c["batch"], num_ut=c["ut"], num_bs=c["bs"], ut_array=ut, bs_array=bs,
                  h_ut=topo["ut_loc"].numpy()[..., 2], h_bs=topo["bs_loc"].numpy()[..., 2],
                  distance_2d_in=0., latitude=None, rays_per_cluster=20)
    pick = [0]

    def look(model):
        pos, kw, _ = setting[pick[0] % len(setting)]
        pick[0] += 1
        model.set_topology(*pos, **kw)
        s = W.scen(model)
        for k, v in report.items():
            if v is None or not hasattr(s, k):
                continue
            x = getattr(s, k)
            if k.endswith("_array"):
                m.check(x is v, "report", f"{k} is not the one given")
            elif isinstance(v, (str, bool)):
                m.check((np_of(x) == v) if not isinstance(v, str) else x == v, "report", f"{k}: {x}, given {v}")
            else:
                m.close("report", np_of(x).astype(float), np.asarray(v, float), rtol=1e-12 if double else 2e-7, msg=k)
        m.close("report", np_of(s.distance_2d_out), np_of(s.distance_2d), msg="distance_2d_out of outdoor users")
        m.close("report", np_of(s.indoor), False, msg="indoor")
        if not isinstance(model, ns.t.SystemLevelChannel):
            return flat([getattr(s, k) for k in ("los", "distance_3d", "lsp_log_mean", "basic_pathloss", "gas_pathloss")])
        calls = [((c["T"], c["fs"]), {}), ((7, c["T"], c["fs"]), {}),
                 ((), dict(num_time_samples=c["T"], sampling_frequency=c["fs"])),
                 ((c["T"],), dict(sampling_frequency=c["fs"])), ((c["batch"], c["T"], c["fs"]), {})]
        q = []
        for _ in range(2):
            a, k = calls[rng.randrange(len(calls))]
            q.append(model(*a, **k))
        return flat(q)
    compare(m, rng, "model", ns.models[c["scen"]], given, free, look)
    compare(m, rng, "scenario", getattr(ns.t, SCN[c["scen"]]), {k: given[k] for k in given if k != "always_generate_lsp"},
            [k for k in free if k != "always_generate_lsp"], look)
    # the effect of the defaults, not only their agreement
    model = ns.models[c["scen"]](**base)
    model.set_topology(los=True, **topo)
    a, _ = model(1, 1e5)
    s = W.scen(model)
    m.check(s.pathloss_enabled and s.shadow_fading_enabled and s.doppler_enabled, "default", "options that are on by "
            "default are off", n=3)
    p = (np.abs(np_of(a)) ** 2).max()
    m.check(p < 1e-10, "default", f"path loss is not applied by default: coefficient {p:.2g}")
    m.check(np_of(a).dtype == (np.complex128 if double else np.complex64), "default", "precision of the library's "
            "configuration not taken")


def array_args(a, fc):
    g = dict(polarization=a["pol"], polarization_type=a["ptype"], antenna_pattern=a["pattern"], carrier_frequency=fc,
             precision=None)
    if a["kind"] == "AntennaArray":
        g.update(num_rows=a["rows"], num_cols=a["cols"], vertical_spacing=a.get("vs", .5), horizontal_spacing=a.get("hs", .5))
    elif a["kind"] == "PanelArray":
        r, c, v, h = a["rows"], a["cols"], a.get("vs", .5), a.get("hs", .5)
        g.update(num_rows_per_panel=r, num_cols_per_panel=c, num_rows=a.get("prow", 1), num_cols=a.get("pcol", 1),
                 element_vertical_spacing=v, element_horizontal_spacing=h,
                 panel_vertical_spacing=a.get("pvs", (r - 1) * v + .5),
                 panel_horizontal_spacing=a.get("phs", (c - 1) * h + .5))
    return g


def look_array(x):
    th, ph = np.linspace(.2, 2.9, 9), np.linspace(-3, 3, 9)
    rd = x.ant_pos.dtype
    tf = boot().tf
    q = [x.ant_pos, x.ant_ind_pol1, x.ant_ind_pol2 if x.polarization == "dual" else None, x.num_ant, x.polarization,
         x.polarization_type, x.num_rows, x.num_cols, x.num_rows_per_panel, x.num_cols_per_panel, x.panel_vertical_spacing,
         x.panel_horizontal_spacing, x.element_vertical_spacing, x.element_horizontal_spacing]
    q.append(x.ant_pol1.field(tf.constant(th, rd), tf.constant(ph, rd)))
    if x.polarization == "dual":
        q.append(x.ant_pol2.field(tf.constant(th, rd), tf.constant(ph, rd)))
    return flat(q)


def arrays(ns, m, c):
    rng = random.Random(c["seed"])
    ns.config.precision = c["precision"]
    tol = dict(rtol=1e-12 if c["precision"] == "double" else 2e-7)
    for a in c["arrs"]:
        g = array_args(a, c["fc"])
        free = ["precision"]
        free += [k for k, q in (("vertical_spacing", "vs"), ("horizontal_spacing", "hs"),
                                ("element_vertical_spacing", "vs"), ("element_horizontal_spacing", "hs"),
                                ("panel_vertical_spacing", "pvs"), ("panel_horizontal_spacing", "phs"))
                 if k in g and q not in a]
        free += [k for k in ("num_rows", "num_cols") if a["kind"] == "PanelArray" and g[k] == 1]
        cls = getattr(ns.t, a["kind"])
        compare(m, rng, a["kind"], cls, g, free, look_array)
        x = cls(**g)
        rep = dict(polarization=a["pol"], polarization_type=a["ptype"], num_rows_per_panel=a.get("rows", 1),
                   num_cols_per_panel=a.get("cols", 1), num_rows=a.get("prow", 1), num_cols=a.get("pcol", 1),
                   num_panels=a.get("prow", 1) * a.get("pcol", 1), num_ant=W.num_ant(a),
                   num_panels_ant=W.num_ant(a) // (a.get("prow", 1) * a.get("pcol", 1)),
                   element_vertical_spacing=a.get("vs", .5), element_horizontal_spacing=a.get("hs", .5))
        if a["kind"] == "PanelArray":
            rep.update(panel_vertical_spacing=g["panel_vertical_spacing"],
                       panel_horizontal_spacing=g["panel_horizontal_spacing"])
        for k, v in rep.items():
            y = getattr(x, k)
            if isinstance(v, str):
                m.check(y == v, "report", f"{a['kind']}.{k}: {y}, given {v}")
            else:
                m.close("report", float(np_of(y)), float(v), msg=f"{a['kind']}.{k}", **tol)
    for p in W.PATTERNS:
        sl = rng.choice((0., 0., .7))
        f = lambda e: flat(e.field(*[ns.tf.constant(v, ns.config.tf_rdtype) for v in (np.linspace(.2, 2.9, 9),
                                                                                    np.linspace(-3, 3, 9))]))
        compare(m, rng, "AntennaElement", ns.t.AntennaElement, dict(pattern=p, slant_angle=sl, precision=None),
                ["precision"] + (["slant_angle"] if sl == 0 else []), f)
    g = dict(num_rows=rng.randint(1, 3), num_cols=rng.randint(1, 3), polarization=rng.choice(("single", "dual")),
             vertical_spacing=.6, horizontal_spacing=.8, precision=None)
    compare(m, rng, "AntennaPanel", ns.t.AntennaPanel, g, ["precision"],
            lambda x: flat([x.ant_pos, x.num_rows, x.num_cols, x.vertical_spacing, x.horizontal_spacing]))
    x = ns.t.AntennaPanel(**g)
    for k in ("num_rows", "num_cols", "vertical_spacing", "horizontal_spacing"):
        m.close("report", float(np_of(getattr(x, k))), g[k], msg=f"AntennaPanel.{k}", **tol)


def utils(ns, m, c):
    rng = random.Random(c["seed"])
    r = np.random.RandomState(c["seed"] % 2**31)
    ns.config.precision = c["precision"]
    tf, u = ns.tf, ns.utils
    rd = ns.config.tf_rdtype
    cd = ns.config.tf_cdtype
    k = lambda x: tf.constant(x, rd)
    sec = {q: (v[c["scen"]] if isinstance(v, dict) else v) for q, v in SECTOR.items()}
    g = dict(sec, batch_size=rng.choice((1, 3)), num_ut=rng.choice((1, 4)), scenario=c["scen"], precision=None)
    free = list(sec) + ["precision"]
    for q, v in (("bs_height", 1.2e6), ("elevation_angle", 40.), ("isd", 77.), ("min_ut_height", rng.choice((0., 1.))), ("max_ut_height", 9.),
                 ("max_ut_velocity", 4.), ("min_ut_velocity", 0.)):
        if rng.random() < .35:
            g[q] = v
            if v != sec[q]:
                free.remove(q)
    compare(m, rng, "gen_single_sector_topology", u.gen_single_sector_topology, g, free)
    p = compare(m, rng, "set_3gpp_scenario_parameters", u.set_3gpp_scenario_parameters,
                {q: v for q, v in g.items() if q not in ("batch_size", "num_ut")}, free)
    for q, x in zip(("isd", "bs_height", "elevation_angle", "min_ut_height", "max_ut_height", "indoor_probability",
                     "min_ut_velocity", "max_ut_velocity"), p):
        m.close("report", float(x), g[q], rtol=1e-6, msg=f"parameter {q} of {c['scen']}")
        m.check(x.dtype == rd.as_numpy_dtype, "default", f"{q} is {x.dtype}")
    compare(m, rng, "drop_uts_in_sector", u.drop_uts_in_sector,
            dict(batch_size=2, num_ut=3, bs_height=k(6e5), elevation_angle=k(g["elevation_angle"]), isd=k(100.),
                 precision=None), ["precision"])
    n = rng.choice((1, 5, 12))
    f = compare(m, rng, "subcarrier_frequencies", u.subcarrier_frequencies,
                dict(num_subcarriers=n, subcarrier_spacing=15e3, precision=None), ["precision"])
    m.check(f[0].dtype == rd.as_numpy_dtype, "default", "precision of the frequencies")
    compare(m, rng, "time_frequency_vector", u.time_frequency_vector,
            dict(num_samples=n, sample_duration=1e-6, precision=None), ["precision"])
    for b in (1e6, 30e6, 123e6):
        compare(m, rng, "time_lag_discrete_time_channel", u.time_lag_discrete_time_channel,
                dict(bandwidth=b, maximum_delay_spread=3e-6), ["maximum_delay_spread"])
    sh = (2, 1, 2, 1, 1, 5, 2)
    a = tf.constant(r.randn(*sh) + 1j * r.randn(*sh), cd)
    tau = k(np.sort(r.uniform(0, 2e-6, (2, 1, 1, 5)), -1))
    for norm in (False, True):
        fr = ["normalize"] if not norm else []
        compare(m, rng, "cir_to_ofdm_channel", u.cir_to_ofdm_channel,
                dict(frequencies=u.subcarrier_frequencies(8, 15e3), a=a, tau=tau, normalize=norm), fr)
        compare(m, rng, "cir_to_time_channel", u.cir_to_time_channel,
                dict(bandwidth=1e6, a=a, tau=tau, l_min=-3, l_max=5, normalize=norm), fr)
    compare(m, rng, "exp_corr_mat", u.exp_corr_mat, dict(a=.4, n=4, precision=None), ["precision"])
    d, s = rng.choice((.5, .7)), rng.choice((15, 9))
    compare(m, rng, "one_ring_corr_mat", u.one_ring_corr_mat,
            dict(phi_deg=k([10., 40.]), num_ant=4, d_h=d, sigma_phi_deg=s, precision=None),
            ["precision"] + (["d_h"] if d == .5 else []) + (["sigma_phi_deg"] if s == 15 else []))
    compare(m, rng, "sample_bernoulli", u.sample_bernoulli, dict(shape=[40], p=k(.4), precision=None), ["precision"])
    for name in ("LSP", "Rays", "Topology"):
        cls = getattr(ns.t, name)
        v = {q: k(r.rand(2)) for q in SIG[name][0]}
        if name == "Topology":
            v.update(moving_end="tx", los=tf.constant([True, False]), distance_3d=k([[[7e5]]]), bs_height=k([6.1e5]), elevation_angle=k(33.),
                     doppler_enabled=False)
        for pos, kw, _ in ways(rng, name, v):
            x = cls(*pos, **kw)
            for q, w in v.items():
                y = getattr(x, q)
                m.check(y is w or np.array_equal(np_of(y), np_of(w)), "report", f"{name}.{q} is not what was given")


def run(c, m):
    ns = boot()
    dict(model=models, arrays=arrays, utils=utils)[c["kind"]](ns, m, c)
    m.sample(kind=c["kind"], precision=c["precision"])
