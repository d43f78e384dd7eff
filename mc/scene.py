"""Closed scenes with ready subcolumns (masks, q and N set directly), for driving the forward simulators."""
import numpy as np
import xarray as xr

from . import subcol, synth

QREF = {"cl": 2e-4, "ci": 3e-5, "pl": 5e-5, "pi": 8e-5, "sn": 6e-5, "gr": 4e-5, "ha": 2e-5, "pir": 7e-5, "pid": 5e-5, "pif": 3e-5}
NREF = {"cl": 80., "ci": 0.05, "pl": 1e-3, "pi": 5e-3, "sn": 4e-3, "gr": 1e-3, "ha": 1e-4, "pir": 5e-3, "pid": 3e-3, "pif": 2e-3}


def put(m, name, v):
    m.ds[name] = xr.DataArray(np.array(v), dims=("subcolumn",) + tuple(m.ds[m.T_field].dims))


def scene(T, H, N, masks, conv_masks=None, qscale=None, conv_qscale=None, nscale=None, hyd=synth.HYD, key=None, **kw):
    """masks: {hyd: bool array broadcastable to (N,T,H)}; qscale likewise a multiplier of QREF."""
    conv = conv_masks is not None

    def build():
        q = {h: 1e-4 for h in hyd}
        kw2 = dict(kw)
        kw2.setdefault("re", {h: {"cl": 8., "pl": 120., "ci": 35., "pi": 150.}.get(h, 90.) for h in hyd})
        return synth.make_model(T, H, q_strat=q, q_conv=q, strat_frac={h: .5 for h in hyd}, hyd=hyd, process_conv=conv, **kw2)
    m = subcol.fresh(("scene", T, H, conv, tuple(hyd), key, repr(sorted((k, repr(v)) for k, v in kw.items()))), build)
    m.interpobj = {}
    m.ds["subcolumn"] = ("subcolumn", np.arange(N))
    sh = (N, T, H)
    for kind, mk, qs in (("strat", masks, qscale), ("conv", conv_masks, conv_qscale)):
        if mk is None:
            continue
        for h in hyd:
            f = np.broadcast_to(np.asarray(mk.get(h, False)), sh)
            s = np.broadcast_to(np.asarray((qs or {}).get(h, 1.)), sh)
            put(m, "%s_frac_subcolumns_%s" % (kind, h), f.copy())
            put(m, "%s_q_subcolumns_%s" % (kind, h), np.where(f, QREF[h] * s, 0.))
            if kind == "strat":
                n = np.broadcast_to(np.asarray((nscale or {}).get(h, 1.)), sh)
                put(m, "strat_n_subcolumns_%s" % h, np.where(f, NREF[h] * n, 0.))
    return m


def vary(T, H, N, k):
    """A positive field that differs in every cell (so that any permutation of cells is visible)."""
    i = np.arange(N * T * H).reshape(N, T, H)
    return 1. + ((i * 37 + 11 * k) % 101) / 67. + i * 1e-3


def out_fields(m, prefix=("sub_col", "hyd_ext", "atm_ext", "Ze_min", "detect_mask", "ext_mask", "strat_", "conv_", "sigma_180", "tau",
                          "kappa_att", "beta_m", "phase_mask", "COSP", "N_0", "lambda", "mu")):
    return {k: canon(m, m.ds[k]) for k in m.ds.data_vars if str(k).startswith(prefix)}


def canon(m, a):
    """Values with the subcolumn dimension first, then time, then height (the order of dimensions is not an observable)."""
    order = [d for d in ("subcolumn", m.time_dim, m.height_dim) if d in a.dims]
    return np.asarray(a.transpose(*order, ...).values)


def same(a, b, rtol=0., atol=0.):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
        return bool(np.all(a == b))
    if rtol == 0 and atol == 0:
        return bool(np.array_equal(a.astype(float), b.astype(float), equal_nan=True))
    return bool(np.allclose(a.astype(float), b.astype(float), rtol=rtol, atol=atol, equal_nan=True))


def diff_fields(A, B, rtol=0., atol=0.):
    """Names of fields that differ (or exist on one side only)."""
    out = [k for k in sorted(set(A) | set(B)) if k not in A or k not in B]
    return out + [k for k in sorted(set(A) & set(B)) if not same(A[k], B[k], rtol, atol)]


def describe(A, B, name):
    if name not in A or name not in B:
        return "%s exists only %s" % (name, "in the first result" if name in A else "in the second result")
    a, b = np.asarray(A[name]), np.asarray(B[name])
    if a.shape != b.shape:
        return "%s has shape %s vs %s" % (name, a.shape, b.shape)
    with np.errstate(all="ignore"):
        d = ~np.isclose(a.astype(float), b.astype(float), rtol=1e-9, atol=0, equal_nan=True)
    w = np.argwhere(d)
    if not len(w):
        w = np.argwhere(~((a == b) | ((a != a) & (b != b))))
    if not len(w):
        return name
    i = tuple(w[0])
    return "%s%s: %r vs %r (%d of %d entries differ)" % (name, list(map(int, i)), float(a[i]), float(b[i]), len(w), a.size)
