"""Stand-ins for what this sandbox lacks (see DESIGN.md). Importing this module makes pysgmcmc importable."""
import logging
import os
import sys
import types
import warnings

os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
warnings.filterwarnings("ignore")

REPO = os.environ.get("VERIF_REPO", "/repo")


def _quiet_import():
    """TensorFlow's C++ part writes to stderr on import, whatever the log level."""
    saved, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        import tf_v1_api  # noqa: F401
        import tensorflow
    finally:
        os.dup2(saved, 2)
        os.close(saved)
        os.close(null)
    return tensorflow


tf = _quiet_import()
logging.getLogger("tensorflow").setLevel(logging.CRITICAL)
logging.disable(logging.CRITICAL)


def _install_contrib():
    def variance_scaling_initializer(factor=2.0, mode="FAN_IN", uniform=False, seed=None, dtype=tf.float32):
        return tf.variance_scaling_initializer(
            scale=factor, mode=mode.lower(), distribution="uniform" if uniform else "truncated_normal",
            seed=seed, dtype=dtype)
    contrib = types.ModuleType("tensorflow.contrib")
    layers = types.ModuleType("tensorflow.contrib.layers")
    layers.variance_scaling_initializer = variance_scaling_initializer
    contrib.layers = layers
    sys.modules["tensorflow.contrib"] = contrib
    sys.modules["tensorflow.contrib.layers"] = layers
    tf.contrib = contrib


def _install_pymc3():
    pymc3 = types.ModuleType("pymc3")
    backends = types.ModuleType("pymc3.backends")
    base = types.ModuleType("pymc3.backends.base")
    diagnostics = types.ModuleType("pymc3.diagnostics")

    class MultiTrace(object):
        def __init__(self, straces):
            self.straces = list(straces)

    base.MultiTrace = MultiTrace
    backends.base = base
    diagnostics.effective_n = lambda mtrace, **kw: ("ess", mtrace)
    diagnostics.gelman_rubin = lambda mtrace, **kw: ("gelman_rubin", mtrace)
    pymc3.backends, pymc3.diagnostics = backends, diagnostics
    for m in (pymc3, backends, base, diagnostics):
        sys.modules[m.__name__] = m


def _install_arspy():
    """ARSpy 0.4 uses np.int when it is given a seed; give that module alone a numpy which has it."""
    import numpy as np
    import arspy.ars

    class _Numpy(types.ModuleType):
        def __getattr__(self, name):
            return getattr(np, name)
    proxy = _Numpy("numpy")
    proxy.int = int
    arspy.ars.np = proxy


_install_contrib()
_install_pymc3()
_install_arspy()
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
