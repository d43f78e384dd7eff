"""Driving the real subcolumn generator on small closed columns under the controlled RNG."""
import copy

import numpy as np

from . import env, explore, rng, synth

_TMPL = {}


def fresh(key, build):
    """A private copy of a cached template model (building a model costs more than running the generator)."""
    if key not in _TMPL:
        if len(_TMPL) > 64:
            _TMPL.clear()
        _TMPL[key] = build()
    t = _TMPL[key]
    m = copy.copy(t)
    m.ds = t.ds.copy()
    return m


def clone(m):
    c = copy.copy(m)
    c.ds = m.ds.copy()
    return c


def set_field(m, name, v):
    """Replace a (time, height) field of a model without touching the template it was copied from."""
    old = m.ds[name]
    new = old.copy(data=np.array(np.broadcast_to(np.asarray(v, dtype=float), old.shape)))
    m.ds[name] = new


Q0 = 1e-4


def column_model(H, T=1, process_conv=True, rad="ModelE", **kw):
    """Template with every mass above the truncation threshold and every fraction zero."""
    def build():
        q = {h: Q0 for h in synth.HYD}
        return synth.make_model(T, H, q_strat=q, q_conv=q, N={h: 50. for h in synth.HYD}, process_conv=process_conv,
                                rad=rad, **kw)
    return fresh(("col", H, T, process_conv, rad, repr(sorted(kw.items()))), build)


def set_fracs(m, fr, which="strat", rad=True, micro=True):
    for h, v in fr.items():
        if rad:
            set_field(m, getattr(m, which + "_frac_names_for_rad")[h], v)
        if micro:
            set_field(m, getattr(m, which + "_frac_names")[h], v)


def profs(m, kind, hyds):
    """{hyd: bool array (N, T, H)} of a generated fraction mask."""
    return {h: np.asarray(m.ds["%s_frac_subcolumns_%s" % (kind, h)].values).astype(bool) for h in hyds}


def sets(mask, t=0):
    """(N, T, H) mask -> tuple over levels of frozensets of subcolumns."""
    return tuple(frozenset(np.flatnonzero(mask[:, t, j]).tolist()) for j in range(mask.shape[2]))


def run_all(body, perms="all", bound=None, gammas=(1.0,), max_exec=None, stats=None):
    """Explore body(stub) over every answer of the random module. Yields (ctx, weight, result)."""
    def go(ctx):
        stub = rng.RandomStub(ctx, perms=perms, gamma_alphabet=gammas)
        with rng.controlled(stub):
            return body(stub)
    for ctx, res in explore.explore(go, bound=bound, stats=stats, max_exec=max_exec):
        yield ctx, res
