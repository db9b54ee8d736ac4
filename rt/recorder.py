"""Flight recorder: observes a channel generation at the boundaries of the
public stages (large-scale parameters, path loss, rays, coefficients).

Wraps are class-level, copy everything to numpy at call and return, and are
removed afterwards. Inside a traced function the events hold symbolic tensors;
`fetches` collects them as extra outputs and `fill` puts the values in.
"""
import contextlib
import threading
import types

from rt.boot import boot


def symbolic(x):
    ns = boot()
    return ns.tf.is_tensor(x) and not hasattr(x, "numpy")


def fetches(tree):
    """Symbolic tensors of a tree of lists, tuples, dicts and namespaces."""
    out = []

    def walk(x):
        if symbolic(x):
            out.append(x)
        elif isinstance(x, types.SimpleNamespace):
            for k in sorted(vars(x)):
                walk(getattr(x, k))
        elif isinstance(x, dict):
            for k in sorted(x):
                walk(x[k])
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    walk(tree)
    return out


def fill(tree, values):
    """Copy of the tree with the symbolic tensors replaced by their values."""
    it = iter(values)

    def walk(x):
        if symbolic(x):
            return np_of(next(it))
        if isinstance(x, types.SimpleNamespace):
            return types.SimpleNamespace(**{k: walk(getattr(x, k)) for k in sorted(vars(x))})
        if isinstance(x, dict):
            return {k: walk(x[k]) for k in sorted(x)}
        if isinstance(x, (list, tuple)):
            return type(x)(walk(y) for y in x)
        return x
    return walk(tree)


def np_of(x):
    ns = boot()
    if x is None:
        return None
    if symbolic(x):                 # inside a traced function: see `fetches`
        return x
    if ns.tf.is_tensor(x) or isinstance(x, ns.tf.Variable):
        return ns.np.array(x.numpy())
    return ns.np.array(x)


LSP_FIELDS = ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd")
RAY_FIELDS = ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr")
TOPO_FIELDS = ("velocities", "los_aoa", "los_aod", "los_zoa", "los_zod", "los",
               "distance_3d", "tx_orientations", "rx_orientations", "bs_height",
               "elevation_angle", "sat_speed")


def snap(obj, fields):
    s = types.SimpleNamespace()
    for f in fields:
        setattr(s, f, np_of(getattr(obj, f, None)))
    return s


def snap_topology(t):
    s = snap(t, TOPO_FIELDS)
    s.moving_end = t.moving_end
    s.doppler_enabled = bool(t.doppler_enabled)
    return s


class Trace:
    """Events of the recorded calls, in order."""

    def __init__(self):
        self.events = []
        self.threads = {}

    def log(self, kind, e):
        self.events.append((kind, e))
        self.threads.setdefault(threading.get_ident(), []).append((kind, e))

    def mine(self):
        """The calling thread's events so far; forgets them."""
        t = Trace()
        t.events = self.threads.pop(threading.get_ident(), [])
        return t

    def of(self, kind):
        return [e for k, e in self.events if k == kind]

    def last(self, kind):
        r = self.of(kind)
        return r[-1] if r else None

    def kinds(self):
        return [k for k, _ in self.events]


@contextlib.contextmanager
def record():
    """Record all generations inside the block into the returned Trace."""
    ns = boot()
    tr = Trace()
    L, R, C = ns.lsp.LSPGenerator, ns.rays.RaysGenerator, ns.cc.ChannelCoefficientsGenerator
    o_l, o_p, o_r, o_c = L.__call__, L.sample_pathloss, R.__call__, C.__call__

    def w_l(self, *a, **k):
        out = o_l(self, *a, **k)
        tr.log("lsp", snap(out, LSP_FIELDS))
        return out

    def w_p(self, *a, **k):
        out = o_p(self, *a, **k)
        tr.log("pathloss", np_of(out))
        return out

    def w_r(self, *a, **k):
        lsp = a[0] if a else k["lsp"]
        pre = snap(lsp, LSP_FIELDS)
        out = o_r(self, *a, **k)
        e = snap(out, RAY_FIELDS)
        e.lsp = pre
        tr.log("rays", e)
        return out

    def w_c(self, num_time_samples, sampling_frequency, k_factor, rays, topology,
            c_ds=None, debug=False):
        e = types.SimpleNamespace()
        e.num_time_samples = int(num_time_samples)
        e.sampling_frequency = float(sampling_frequency)
        e.k_factor, e.c_ds = np_of(k_factor), np_of(c_ds)
        e.rays, e.topology = snap(rays, RAY_FIELDS), snap_topology(topology)
        e.generator = self
        h, delays, phi, t = o_c(self, num_time_samples, sampling_frequency,
                                k_factor, rays, topology, c_ds, True)
        e.h, e.delays, e.phi, e.t = np_of(h), np_of(delays), np_of(phi), np_of(t)
        tr.log("cir", e)
        return (h, delays, phi, t) if debug else (h, delays)

    L.__call__, L.sample_pathloss, R.__call__, C.__call__ = w_l, w_p, w_r, w_c
    try:
        yield tr
    finally:
        L.__call__, L.sample_pathloss, R.__call__, C.__call__ = o_l, o_p, o_r, o_c
