"""Whole-simulation chains used by several properties."""
import numpy as np

from . import rng, subcol, synth


class Const:
    def __init__(self, k):
        self.k = k

    def choose(self, n, tag=""):
        return 0 if tag == "gamma" else self.k % n


class Det(rng.RandomStub):
    """Random answers that are fixed functions of the request (independent of the order of requests)."""

    def gamma(self, shape, scale=1.0, size=None):
        # the spread of the answers depends on the shape parameter (their mean on shape * scale), so that both are visible in the result
        a = np.asarray(shape, dtype=float)
        out = a * np.asarray(scale, dtype=float) * np.ones(size if size is not None else np.shape(shape))
        return out * (0.3 + 0.9 / (1. + a) * np.arange(out.size).reshape(out.shape)) if out.ndim else float(out)


def fixed(k=1):
    return rng.controlled(Det(Const(k)))


_INST = {}


def inst(kind, **kw):
    key = (kind, repr(sorted(kw.items())))
    if key not in _INST:
        _INST[key] = synth.make_instrument(kind, **kw)
    return _INST[key]


LOGICS = {"rad": dict(use_rad_logic=True), "micro": dict(use_rad_logic=False), "emp": dict(use_rad_logic=True, use_empiric_calc=True),
          "emp_micro": dict(use_rad_logic=False, use_empiric_calc=True)}


def simulate(m, kind, logic, N=None, k=1, instrument=None, **kw):
    import emc2.simulator as sim
    opts = dict(LOGICS[logic])
    opts["parallel"] = False
    opts.update(kw)
    with fixed(k):
        return sim.main.make_simulated_data(m, instrument or inst(kind), N, **opts)


def moments(m, kind, is_conv, logic, instrument=None, **kw):
    import emc2.simulator as sim
    opts = dict(LOGICS[logic])
    opts["parallel"] = False
    opts.update(kw)
    f = sim.radar_moments.calc_radar_moments if kind == "radar" else sim.lidar_moments.calc_lidar_moments
    return f(instrument or inst(kind), m, is_conv, **opts)
