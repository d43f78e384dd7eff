"""P18: cloud fractions and height-frequency diagrams count subcolumns exactly."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import xarray as xr

from .. import synth  # noqa

BOUNDS = {
    "quick": "all 9^3 triples of scattering ratios (around both thresholds, negative, absent) of 3 subcolumns as the cells of (time, level, column) arrays of 3 shapes; "
             "diagrams: all 9^3 triples of values around all edges x 3 edge sets x 3 shapes x every column index; saving: every shape of diagrams (1..3 levels, 1..3 radar bins, 1..3 ratio bins) x times and columns (1..2) x saved once, twice, or after another model",
    "thorough": "4 subcolumns (9^4)",
}
RULE = "state = one tuple of subcolumn values; judged against counting"
ASSUMPTIONS = ["bin membership is lower edge inclusive, upper edge exclusive (as documented by the code)"]
SR = [5., 5.0001, 80., .01, .0100001, 1., -3., np.nan, 0.]


def units(tier):
    n = 3 if tier == "quick" else 4
    u = [{"kind": "cf", "n": n, "shape": s} for s in (0, 1, 2)]
    u += [{"kind": "cfad", "n": n, "shape": s, "edges": e, "f": f} for s in (0, 1, 2) for e in (0, 1, 2) for f in ("Ze", "SR")]
    u += [{"kind": "save", "G": g} for g in (1, 2, 3)]
    return u


def cells(vals, n, shape):
    """All n-tuples as an array (n, T, G, C)."""
    tup = np.array(list(itertools.product(vals, repeat=n)))
    T, C = [(3, 3), (1, 9), (9, 1)][shape]
    G = len(tup) // (T * C)
    assert T * C * G == len(tup)
    return tup.T.reshape(n, T, G, C)


def run_unit(u, rec):
    from emc2.statistics_LLNL import statistical_aggregation as sa
    if u["kind"] == "save":
        d = tempfile.mkdtemp(prefix="emc2-p18-")
        try:
            return save(u, rec, d + os.sep)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    n = u["n"]
    if u["kind"] == "cf":
        a = cells(SR, n, u["shape"])
        _, T, G, C = a.shape
        b = a.copy()
        r = sa.calculate_lidar_CF(b, T, G, C)
        rec.trace()
        rec.check(np.array_equal(a, b, equal_nan=True), "input changed", "the scattering ratio was changed", u)
        for t, g, c in np.ndindex(T, G, C):
            v = a[:, t, g, c].tolist()
            cl, ok = sum(x > 5. for x in v), sum(x > .01 for x in v)
            w = cl / ok if ok else None
            x = float(r[t, g, c])
            rec.state(("cf", tuple(v)))
            rec.step()
            rec.outcome(("cf", w))
            if not ((w is None and x != x) or x == w or (w is not None and abs(x - w) < 1e-12)):
                rec.violation("cf", "cloud fraction %r instead of %r" % (x, w), {"SR": v})
        rec.sample({"kind": "cf", "cells": T * G * C})
        return
    edges = [np.array([-1., .01, 1.2, 3., 5.]), np.array([-40., -10., 0., 20.]), np.array([0., 1.])][u["edges"]]
    vals = [edges[0], edges[0] - 1e-9, edges[-1], edges[-1] - 1e-9, (edges[0] + edges[1]) / 2, edges[len(edges) // 2], edges[-2] + .3 * (edges[-1] - edges[-2]),
            np.nan, -1e30]
    a = cells(vals, n, u["shape"])
    _, T, G, C = a.shape
    mid = np.arange(G) * .48
    f = sa.get_cfaddBZ if u["f"] == "Ze" else sa.get_cfad_SR
    for c in range(C):
        r = f(edges, mid, T, n, a.copy(), c)
        rec.trace()
        if not rec.check(np.shape(r) == (G, len(edges) - 1), "shape", "diagram of shape %r" % (np.shape(r),), u):
            return
        for g in range(G):
            for e in range(len(edges) - 1):
                k = sum(edges[e] <= x < edges[e + 1] for t in range(T) for x in a[:, t, g, c])
                w = k / (n * T)
                rec.step()
                rec.outcome((u["edges"], w))
                x = float(r[g, e])
                if not abs(x - w) < 1e-12:
                    rec.violation("cfad:" + u["f"], "frequency %r instead of %r" % (x, w), {"edges": edges.tolist(), "bin": e, "values": a[:, :, g, c].tolist()})
            for t in range(T):
                rec.state((u["edges"], tuple(a[:, t, g, c].tolist())))
    rec.sample({"kind": u["f"], "cells": T * G * C})


def products(T, C, G, R, S, k):
    """A model (k-th of the process) and the statistics made from it; every number differs."""
    from emc2.core.model import Model
    m = Model()
    a = (np.arange(2 * T * 2 * C).reshape(2, T, 2, C) * 1.25 + 1000. * k) + .1
    a[0, 0, 0, 0] = np.nan
    m.ds = xr.Dataset({"sub_col_Ze_tot": (("subcolumn", "time", "lev", "ncol"), a), "T": (("time", "lev", "ncol"), a[1] + 7.)},
                      coords={"time": np.arange(T) * 3., "ncol": np.arange(C) + 5})
    f = lambda sh, o: np.arange(int(np.prod(sh)), dtype=float).reshape(sh) / 64. + o + k
    cf = f((T, G, C), 50.)
    cf[0, 0, 0] = np.nan
    return m, np.arange(R + 1) * 5. - 35. + k, cf, f((G, R), 20.), f((G, S), 30.)


def save(u, rec, d):
    from emc2.statistics_LLNL.statistical_output import save_cfads_to_nc
    for R, S, T, C, hist in itertools.product((1, 2, 3), (1, 2, 3), (1, 2), (1, 2), ((0,), (0, 0), (1, 0))):
        case = {"levels": u["G"], "radar bins": R, "ratio bins": S, "times": T, "columns": C, "history": hist}
        objs = {k: products(T, C, u["G"], R, S, k) for k in set(hist)}
        keep = {k: [np.array(x) for x in o[1:]] for k, o in objs.items()}
        fields = {k: {n: np.array(v.values) for n, v in o[0].ds.variables.items()} for k, o in objs.items()}
        rec.trace()
        for i, k in enumerate(hist):
            m, bins, cf, ze, sr = objs[k]
            rec.step()
            try:
                save_cfads_to_nc(m, bins, cf, ze, sr, d, "out%d.nc" % k)
            except Exception as e:  # noqa: BLE001
                if not rec.check(False, "save:error", "saving (call %d) failed: %s: %s" % (i, type(e).__name__, e), case):
                    return
            rec.check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep[k], objs[k][1:])), "save:input", "the statistics were changed while saving", case)
            rec.check(all(n in m.ds.variables and np.array_equal(m.ds[n].values, v, equal_nan=True) for n, v in fields[k].items()), "save:model", "fields of the model were changed", case)
        for k in set(hist):
            with xr.open_dataset(d + "out%d.nc" % k, decode_times=False) as ds:
                rec.state((u["G"], R, S, T, C, hist, k))
                rec.outcome((tuple(ds.sizes.items()),))
                bins, cf, ze, sr = keep[k]
                for n, w in (("CFAD_Radar", ze), ("CFAD_SR", sr), ("cloud_fraction", cf)):
                    rec.check(n in ds and ds[n].shape == w.shape and np.array_equal(ds[n].values, w, equal_nan=True), "save:" + n, "%s in the file is not the one given" % n, case)
                rec.check(any(v.shape == bins.shape and np.array_equal(v.values, bins) for v in ds.variables.values()), "save:bins", "the radar bins %s are not in the file" % bins, case)
                for n, v in fields[k].items():
                    rec.check(n in ds.variables and np.array_equal(ds[n].values, v, equal_nan=True), "save:fields", "field %s of the model is not in the file as it was" % n, case)
    rec.sample({"kind": "save", "levels": u["G"]})
