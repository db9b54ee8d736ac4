"""Start of every worker process: imports TensorFlow, Sionna and OpenNTN from /repo."""
import os
import random
import types

REPO = "/repo/OpenNTN"
_ns = None


def boot():
    """Import everything once and return a namespace of the public API."""
    global _ns
    if _ns is not None:
        return _ns
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import tensorflow as tf
    try:
        tf.config.threading.set_intra_op_parallelism_threads(1)
        tf.config.threading.set_inter_op_parallelism_threads(1)
    except RuntimeError:
        pass
    tf.get_logger().setLevel("ERROR")
    import sionna.phy
    from sionna.phy.channel import tr38811
    from sionna.phy.channel.tr38811 import utils
    real = os.path.realpath(os.path.dirname(tr38811.__file__))
    if real != REPO:
        raise RuntimeError(f"OpenNTN is imported from {real}, not from {REPO}")
    ns = types.SimpleNamespace()
    ns.np, ns.tf, ns.phy, ns.t, ns.utils = np, tf, sionna.phy, tr38811, utils
    ns.config = sionna.phy.config
    from sionna.phy.channel.tr38811 import antenna, channel_coefficients, lsp, rays
    ns.antenna, ns.cc, ns.lsp, ns.rays = antenna, channel_coefficients, lsp, rays
    ns.models = {"dur": tr38811.DenseUrban, "urb": tr38811.Urban,
                 "sur": tr38811.SubUrban}
    _ns = ns
    return ns


def seed_all(seed):
    """Seed every generator OpenNTN, Sionna and the harness draw from."""
    ns = boot()
    seed = int(seed) % (2**31 - 1)
    random.seed(seed)
    ns.np.random.seed(seed)
    ns.tf.random.set_seed(seed)
    ns.config.seed = seed


def reset():
    """Back to the library defaults between cases."""
    ns = boot()
    ns.config.precision = "single"
    ns.config.xla_compat = False
    try:
        ns.tf.config.run_functions_eagerly(False)
    except Exception:
        pass
