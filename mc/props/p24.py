"""P24: loading a model output file gives every cell its own values, in the units the simulator works with, for every layout and option."""
import hashlib
import itertools
import os
import shutil
import sys
import tempfile
import types

import numpy as np
import xarray as xr

from .. import env

BOUNDS = {
    "quick": "ModelE: all sizes time {1,3} x lat {absent,1,2} x lon {absent,1,3} x all orders of the dimensions x pressure dimension p/level; E3SMv1, E3SMv3 (MG2 and P3) and CESM2: "
             "the same layouts, ncol layouts, sub-domain (appended) layouts, all combinations of ice class and rain options; WRF (wrf-python replaced by a reader of the same file): "
             "Morrison, MG, MG2, NSSL in both spellings x graupel options x NU-WRF x bounding boxes; DHARMA: columns and domains, one and two precipitating ice classes, "
             "boxes; time ranges: all half-open ranges over the instants, before, between and after them, as tuple, list and array",
    "thorough": "as quick with times 1-4 and all orders of the dimensions for every option",
}
RULE = "one execution = one load of one file; every cell of every field is tagged with its coordinates and looked up after loading and after unstacking"
ASSUMPTIONS = ["all fields of one file share their order of dimensions", "wrf-python is not installed: getvar is replaced by a stand-in that returns the fields stored in the same file",
               "the documented units of the input files (Pa-based hybrid levels, #/kg, precipitation diameters in m) hold"]
RD = 287.058
HY = ("cl", "ci", "pl", "pi")


def units(tier):
    S = (1, 3) if tier == "quick" else (1, 2, 3, 4)
    u = []
    for t, a, o in itertools.product(S, (None, 1, 2), (None, 1, 3)):
        if a is None and o is not None:
            continue
        u += [{"model": m, "t": t, "lat": a, "lon": o, "full": tier != "quick"} for m in ("ModelE", "E3SM")]
    u += [{"model": "E3SM", "t": n, "ncol": True} for n in (1, 2, 5)]
    u += [{"model": "E3SM", "t": t, "append": list(s)} for t in (1, 2) for s in ((3,), (2, 1), (1, 2, 2))]
    u = [{"model": m, "crop": k} for m, ks in (("ModelE", (0, 1)), ("E3SM", tuple(range(9))), ("DHARMA", (0, 1, "box")), ("WRF", (0, 1, "box"))) for k in ks] + u
    u += [{"model": "DHARMA", "t": t, "lat": a, "lon": o} for t in S for a, o in ((None, None), (1, 1), (2, 3), (3, 1))]
    u += [{"model": "WRF", "t": t, "lat": a, "lon": o, "scheme": s} for t in S[:2] for a, o in ((1, 1), (2, 3)) for s in ("morrison", "MG2", "mg", "nssl", "NSSL")]
    return u


class Tag:
    """Distinct, reproducible values for every (variable, time, lat, lon, level)."""

    def __init__(self, nt, na, no, nh):
        self.n = (nt, na or 1, no or 1, nh)

    def arr(self, name, lo, hi, zeros=False):
        k = int(hashlib.sha1(name.encode()).hexdigest()[:6], 16) % 9973
        n = int(np.prod(self.n))
        x = (np.arange(n) * 7919 + k * 31) % 10007 / 10007.
        a = lo + (hi - lo) * x
        if zeros:
            a[(np.arange(n) * 5 + k) % 7 == 0] = 0.
        return a.reshape(self.n)


def put(a, dims, order, lat, lon):
    """Array over (time, lat, lon, lev) -> (dims, values) in the order wanted; absent dims dropped."""
    names = list(dims)
    keep = [i for i, d in enumerate(names) if d in order]
    a = a[tuple(slice(None) if i in keep else 0 for i in range(4))]
    return xr.DataArray(a, dims=[names[i] for i in keep]).transpose(*order)


def run_unit(u, rec):
    d = tempfile.mkdtemp(prefix="emc2-p24-")
    try:
        if "crop" in u:
            {"ModelE": crop_e, "E3SM": crop_s, "DHARMA": crop_d, "WRF": crop_w}[u["model"]](u, rec, d)
        else:
            {"ModelE": modele, "E3SM": e3sm, "DHARMA": dharma, "WRF": wrf}[u["model"]](u, rec, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def load(rec, cls, path, case, **kw):
    import emc2
    h = sha(path)
    rec.trace()
    try:
        with env.quiet():
            m = getattr(emc2.core.model, cls)(path, **kw)
    except Exception as e:
        rec.check(False, "load:%s" % type(e).__name__, "loading failed: %s: %s" % (type(e).__name__, str(e)[:150]), case)
        return None
    rec.check(sha(path) == h, "file", "the input file was changed", case)
    return m


def judge(rec, m, want, keys, lat, lon, case, tname=None, stack=True):
    """want: {variable: array(time, lat, lon, level)} expected after loading, keys: the same order of dims. Cells are found by the tag of the temperature."""
    T = want[m.T_field]
    nt, na, no, nh = T.shape
    tag = {round(float(T[i, j, k, 0]), 6): (i, j, k) for i in range(nt) for j in range(na) for k in range(no)}
    assert len(tag) == nt * na * no
    ds = m.ds
    tf = ds[m.T_field]
    if not rec.check(tf.ndim == 2 and tf.dims == (m.time_dim, m.height_dim), "dims", "fields are not time x height but %s" % (tf.dims,), case):
        return
    if not rec.check(tf.shape == (nt * na * no, nh), "shape", "%s columns x levels instead of %s" % (tf.shape, (nt * na * no, nh)), case):
        return
    cols = []
    for x in range(tf.shape[0]):
        k = round(float(tf.values[x, 0]), 6)
        if not rec.check(k in tag, "columns", "column %d starts with a temperature found at no lowest level" % x, case):
            return
        cols.append(tag[k])
    if not rec.check(len(set(cols)) == len(cols), "columns", "a column of the input appears twice", case):
        return
    ii = tuple(np.array(c) for c in zip(*cols))
    for n, a in want.items():
        rec.step()
        if not rec.check(n in ds, "missing", "%s is missing after loading" % n, case):
            continue
        b = ds[n]
        if not rec.check(set(b.dims) == {m.time_dim, m.height_dim}, "dims", "%s has dimensions %s" % (n, b.dims), case):
            continue
        b = b.transpose(m.time_dim, m.height_dim).values
        e = a[ii]
        if not np.allclose(b, e, rtol=1e-6, atol=0, equal_nan=True):
            w = np.argwhere(~np.isclose(b, e, rtol=1e-6, atol=0, equal_nan=True))[0]
            rec.check(False, "value:%s" % n, "%s of column %s level %d is %g, expected %g" % (n, cols[w[0]], w[1], b[tuple(w)], e[tuple(w)]), case)
    if stack and m.stacked_time_dim is not None:
        with env.quiet():
            m.unstack_time_lat_lon(squeeze_single_dims=False)
        ds = m.ds
        dims = [m.time_dim, m.lat_dim] + ([m.lon_dim] if lon is not None else []) + [m.height_dim]
        for n, a in want.items():
            rec.step()
            if n not in ds:
                continue                         # reported above
            if not rec.check(set(ds[n].dims) == set(dims), "unstack", "%s has dimensions %s after unstacking" % (n, ds[n].dims), case):
                continue
            b = ds[n].transpose(*dims).values
            e = a if lon is not None else a[:, :, 0]
            rec.check(b.shape == e.shape and np.allclose(b, e, rtol=1e-6, atol=0, equal_nan=True), "unstack:%s" % n, "%s is not at its own coordinates after unstacking" % n, case)


def orders(names, absent):
    keep = [n for n in names if n not in absent]
    return list(itertools.permutations(keep))


# ---------------------------------------------------------------- ModelE
def modele_file(path, nt, na, no, nh, order, hd, times, T0=None):
    g = Tag(nt, na, no, nh)
    dims = ("time", "lat", "lon", hd)
    v = {"p_3d": g.arr("p", 100., 1000.), "t": g.arr("t", 200., 300.), "z": g.arr("z", 0., 2e4), "q": g.arr("q", 0., .02)}
    for h in HY:
        for n in ("n%s", "cldmc%s", "cldss%s", "re_mc%s", "re_ss%s", "q%s", "Q%smc"):
            k = n % (h.upper() if n[0] == "Q" else h)
            v[k] = g.arr(k, 0., 5.)
    v["cldmcr"], v["cldssr"] = g.arr("cldmcr", 0, 1), g.arr("cldssr", 0, 1)
    ds = xr.Dataset({k: put(a, dims, order, na, no) for k, a in v.items()})
    ds["p_3d"].attrs["units"] = "mb"
    ds["t"].attrs["units"] = "K"
    ds["z"].attrs["units"] = "m"
    c = {"time": times, hd: np.linspace(1000., 100., nh)}
    if na:
        c["lat"] = np.linspace(-60., 60., na)
    if no:
        c["lon"] = np.linspace(0., 180., no)
    ds.assign_coords(c).to_netcdf(path)
    v["rho_a"] = v["p_3d"] * 1e2 / (RD * v["t"])
    return v


def stamps(n):
    return np.datetime64("2020-03-01T00:00:00") + np.arange(n) * np.timedelta64(30, "m")


def modele(u, rec, d):
    ab = [n for n, k in (("lat", "lat"), ("lon", "lon")) if u[k] is None]
    i = 0
    for hd in ("p", "level"):
        for nh in (2, 3):
            for order in orders(("time", "lat", "lon", hd), ab)[::1 if u["full"] or (hd == "p" and nh == 3) else 5]:
                path = os.path.join(d, "m%d.nc" % i)
                i += 1
                want = modele_file(path, u["t"], u["lat"], u["lon"], nh, order, hd, stamps(u["t"]))
                case = dict(u, order=order, levels=nh)
                rec.state((tuple(order), nh, u["t"], u["lat"], u["lon"]))
                m = load(rec, "ModelE", path, case)
                if m is None:
                    continue
                rec.check(m.ds["p_3d"].attrs.get("units") == "hPa", "units", "pressure is labelled %r" % m.ds["p_3d"].attrs.get("units"), case)
                rec.check(m.height_dim == hd and m.hyd_types == list(HY) and m.process_conv, "setup", "height dimension, classes or convection are wrong", case)
                judge(rec, m, want, None, u["lat"], u["lon"], case)
                m.ds.close()
                os.remove(path)
    rec.outcome(str(u))


# ---------------------------------------------------------------- E3SM family
def e3sm_values(g, nh):
    hyam = np.linspace(.02, .05, nh) + np.arange(nh) % 3 * .004           # file order: top of the atmosphere first
    hybm = np.linspace(.0, .93, nh)
    v = {"T": g.arr("T", 200., 300.), "Z3": g.arr("Z3", 0, 2e4), "Q": g.arr("Q", 0, .02), "CLOUD": g.arr("CLOUD", 0, 1), "RELVAR": g.arr("RELVAR", .5, 4),
         "mu_cloud": g.arr("mu", 2, 15), "lambda_cloud": g.arr("lam", 1e4, 1e6)}
    for a, b in (("CLDLIQ", 1e-3), ("CLDICE", 1e-3), ("RAINQM", 1e-3), ("SNOWQM", 1e-3), ("NUMLIQ", 1e8), ("NUMICE", 1e6), ("NUMRAI", 1e5), ("NUMSNO", 1e5), ("CLDRIM", 1e-4), ("BVRIM", 1e-6)):
        v[a] = g.arr(a, b * .1, b)
    for a in ("FREQL", "FREQI", "FREQR", "FREQS"):
        v[a] = g.arr(a, .1, 1.)
    v["AREL"], v["AREI"] = g.arr("AREL", 2, 20, True), g.arr("AREI", 10, 100, True)
    v["ADRAIN"], v["ADSNOW"] = g.arr("ADRAIN", 1e-4, 2e-3, True), g.arr("ADSNOW", 1e-4, 2e-3, True)
    ps = g.arr("PS", 9.5e4, 1.03e5)[..., 0]
    return v, hyam, hybm, ps


def e3sm_expect(v, hyam, hybm, ps, hyd, p3=False):
    w = {k: a[..., ::-1].copy() for k, a in v.items()}
    p = (1e5 * hyam + ps[..., None] * hybm)[..., ::-1] / 1e2
    w["p_3d"] = p
    w["rho_a"] = rho = p * 1e2 / (RD * w["T"])
    w["zeros_cf"] = np.zeros_like(p)
    N = {"cl": "NUMLIQ", "ci": "NUMICE", "pl": "NUMRAI", "pi": "NUMSNO"}
    R = {"cl": "AREL", "ci": "AREI", "pl": "ADRAIN", "pi": "ADSNOW"}
    for h in hyd:
        w[N[h]] = w[N[h]] * rho / 1e6
        r = w[R[h]] * (.5e6 if h[0] == "p" else 1.)
        w[R[h]] = np.where(r == 0, np.nan, r)
    for h in set(N) - set(hyd):
        w.pop(N[h]), w.pop(R[h])
    if p3:
        w["in_cld_Ni"] = w["NUMICE"] * 1e6 / w["FREQI"]
        w["Fr"] = w["CLDRIM"] / w["CLDICE"]
        w["rho_r"] = w["CLDRIM"] / w["BVRIM"]
        w["qi_norm"] = w["CLDICE"] * rho / w["FREQI"] / w["in_cld_Ni"]
    return w


def e3sm_file(path, v, hyam, hybm, ps, order, tdim, times, extra=None, lat=None, lon=None, suffix=None, parts=None):
    dims = (tdim if tdim == "ncol" else "time", "lat", "lon", "lev")
    nh = len(hyam)
    if suffix is None:
        ds = xr.Dataset({k: put(a, dims, order, lat, lon) for k, a in v.items()})
        ds["PS"] = put(np.repeat(ps[..., None], nh, axis=-1), dims, order, lat, lon).isel(lev=0)
    else:                        # sub-domains along an ncol dimension: every field is split, names and dimensions carry a suffix
        ds = xr.Dataset()
        e = 0
        for s, n in zip(suffix, parts):
            sl = slice(e, e + n)
            e += n
            for k, a in v.items():
                ds[k + s] = (("time", "lev", "ncol" + s), np.moveaxis(a[:, sl, 0, :], -1, 1))
            ds["PS" + s] = (("time", "ncol" + s), ps[:, sl, 0])
            ds["lat" + s] = (("ncol" + s,), np.arange(n) * 1.)
    ds["P0"] = ((), 1e5)
    ds["hyam"], ds["hybm"] = ("lev", hyam), ("lev", hybm)
    c = {"lev": np.arange(nh) * 100. + 50.}
    if tdim != "ncol":
        c["time"] = times
    if lat and suffix is None:
        c["lat"] = np.linspace(-60., 60., lat)
    if lon:
        c["lon"] = np.linspace(0., 180., lon)
    ds = ds.assign_coords(c)
    if tdim == "ncol":
        ds["time"] = ("ncol", times, {"units": "days since 2020-03-01 00:00:00", "calendar": "noleap"})
    ds.to_netcdf(path)


CONF = [("E3SMv1", {}), ("E3SMv1", {"single_ice_class": True}), ("E3SMv1", {"include_rain_in_rt": True}), ("E3SMv1", {"single_ice_class": True, "include_rain_in_rt": True}),
        ("CESM2", {}), ("E3SMv3", {"mcphys_scheme": "MG2", "single_ice_class": False}), ("E3SMv3", {}), ("E3SMv3", {"include_rain_in_rt": True})]


def hyds(cls, kw):
    h = ["cl", "ci"] + (["pl"] if kw.get("include_rain_in_rt") else [])
    return h + ([] if kw.get("single_ice_class", cls == "E3SMv3") else ["pi"])


def e3sm(u, rec, d):
    i = 0
    nt = u["t"]
    for (cls, kw), nh in itertools.product(CONF, (2, 3)):
        kw = dict(kw)
        hyd = hyds(cls, kw)
        p3 = cls == "E3SMv3" and kw.get("mcphys_scheme", "P3") == "P3"
        if u.get("append"):
            if cls == "CESM2":
                continue
            parts = u["append"]
            g = Tag(nt, sum(parts), 1, nh)
            v, A, B, ps = e3sm_values(g, nh)
            path = os.path.join(d, "a%d.nc" % i)
            i += 1
            sub = ["_%dw_to_%dw_%dn_to_%dn" % (10 + 7 * k, 12 + 7 * k, 30 + 5 * k, 33 + 5 * k) for k in range(len(parts))]
            e3sm_file_sub(path, v, A, B, ps, stamps(nt), sub, parts)
            case = dict(u, cls=cls, options=kw, levels=nh)
            m = load(rec, cls, path, case, appended_str=True, all_appended_in_lat=True, **kw)
            if m is not None:
                rec.check(m.hyd_types == hyd, "classes", "classes are %s" % m.hyd_types, case)
                judge(rec, m, e3sm_expect(v, A, B, ps, hyd, p3), None, sum(parts), None, case)
                m.ds.close()
            rec.state((cls, tuple(parts), nt, nh))
            continue
        if u.get("ncol"):
            os_, tdim, lat, lon = list(itertools.permutations(("ncol", "lev"))), "ncol", None, None
            times = np.arange(nt) * .25
        else:
            lat, lon, tdim, times = u["lat"], u["lon"], "time", stamps(nt)
            os_ = orders(("time", "lat", "lon", "lev"), [n for n in ("lat", "lon") if u[n] is None])
            if not u["full"] and (cls != "E3SMv1" or kw or nh == 2):
                os_ = os_[::5]
        for order in os_:
            g = Tag(nt, lat, lon, nh)
            v, A, B, ps = e3sm_values(g, nh)
            path = os.path.join(d, "e%d.nc" % i)
            i += 1
            e3sm_file(path, v, A, B, ps, order, tdim, times, lat=lat, lon=lon)
            case = dict(u, cls=cls, options=kw, order=order, levels=nh)
            rec.state((cls, str(kw), tuple(order), nh))
            m = load(rec, cls, path, case, time_dim=tdim, **kw)
            if m is None:
                continue
            rec.check(m.hyd_types == hyd, "classes", "classes are %s instead of %s" % (m.hyd_types, hyd), case)
            rec.check(m.model_name == cls and not m.process_conv, "setup", "model name or convection is wrong", case)
            rec.check(m.ds["p_3d"].attrs.get("units") == "hPa", "units", "pressure is labelled %r" % m.ds["p_3d"].attrs.get("units"), case)
            judge(rec, m, e3sm_expect(v, A, B, ps, hyd, p3), None, lat, lon, case)
            m.ds.close()
            os.remove(path)
    rec.outcome(str(u))


def e3sm_file_sub(path, v, A, B, ps, times, sub, parts):
    e3sm_file(path, v, A, B, ps, None, "time", times, suffix=sub, parts=parts)


# ---------------------------------------------------------------- WRF
def wrf_module(path):
    """Install a stand-in for wrf-python: the diagnostics are stored in the file next to the raw fields."""
    import emc2.core.model as M

    def getvar(nc, name, units=None, timeidx=None, squeeze=True):
        with xr.open_dataset(nc.filepath()) as ds:
            a = ds[{"z": "X_Z", "tk": "X_TK", "wa": "X_W"}[name]].load()
            t = ds["XTIME"].values
        return a.assign_coords(Time=("Time", t))
    M.getvar, M.ALL_TIMES, M.WRF_PYTHON_AVAILABLE = getvar, None, True


WQ = {"cl": ("QCLOUD", "QNCLOUD"), "ci": ("QICE", "QNICE"), "pl": ("QRAIN", "QNRAIN"), "pi": ("QSNOW", "QNSNOW"), "gr": ("QGRAUP", "QNGRAUPEL")}
NQ = {"cl": ("QCLOUD", "QNDROP", "REFC"), "ci": ("QICE", "QNICE", "REFI"), "pl": ("QRAIN", "QNRAIN", "REFR"), "sn": ("QSNOW", "QNSNOW", "REFS"), "gr": ("QGRAUP", "QNGRAUPEL", "REFG"),
      "ha": ("QHAIL", "QNHAIL", "REFH")}


def wrf_file(path, nt, na, no, nh, nssl):
    g = Tag(nt, na, no, nh)
    dims = ("Time", "south_north", "west_east", "bottom_top")
    order = ("Time", "bottom_top", "south_north", "west_east")
    v = {"P": g.arr("P", -500., 500.), "PB": g.arr("PB", 1e4, 1e5), "QVAPOR": g.arr("QV", 0, .02), "X_Z": g.arr("z", 0, 2e4), "X_TK": g.arr("tk", 200, 300), "X_W": g.arr("w", -1, 1),
         "CLDFRA": g.arr("CLDFRA", 0, 1)}
    for h, n in (NQ if nssl else WQ).items():
        q = g.arr(n[0], 1e-15, 1e-3, True)
        q.ravel()[1::11] = 5e-15
        v[n[0]], v[n[1]] = q, g.arr(n[1], 1., 1e8)
        if nssl:
            v[n[2]] = g.arr(n[2], 2., 900.)
    if nssl:
        v["QVGRAUPEL"] = np.where(v["QGRAUP"] > 0, v["QGRAUP"] / g.arr("rg", 150, 850), 0.)
        v["QVHAIL"] = np.where(v["QHAIL"] > 0, v["QHAIL"] / g.arr("rh", 500, 899), 0.)
    ds = xr.Dataset({k: put(a, dims, order, na, no) for k, a in v.items()})
    y, x = np.meshgrid(np.linspace(30., 31., na), np.linspace(-100., -98., no), indexing="ij")
    ds = ds.assign_coords(XLAT=(("Time", "south_north", "west_east"), np.repeat(y[None], nt, 0)), XLONG=(("Time", "south_north", "west_east"), np.repeat(x[None], nt, 0)),
                          XTIME=("Time", stamps(nt)))
    ds.to_netcdf(path)
    return v


def wrf_expect(v, scheme, nuwrf, gr, cut):
    nssl = scheme.lower() == "nssl"
    w = {"pressure": (v["P"] + v["PB"]) / 100., "Z": v["X_Z"], "T": v["X_TK"], "QVAPOR": v["QVAPOR"]}
    rho = w["pressure"] * 1e2 / (RD * w["T"])
    w["rho_a"] = rho
    hyd = list(NQ) if nssl else [h for h in WQ if h != "gr" or gr]
    w["conv_frac"] = np.zeros_like(rho)
    for h in hyd:
        q, n = (NQ if nssl else WQ)[h][:2]
        w["q%ss" % h] = v[q]
        w["q%sc" % h] = np.zeros_like(rho)
        f = np.where(v[q] > cut, 1., 0.)
        w["strat_%s_frac" % h] = v["CLDFRA"] if nuwrf and h in ("cl", "ci") else f
        w[n] = v[n] * rho * 1e-6
        if nssl:
            w[NQ[h][2]] = v[NQ[h][2]]
    if nssl:
        for a, b, c in (("RHO_GRAUPEL", "QGRAUP", "QVGRAUPEL"), ("RHO_HAIL", "QHAIL", "QVHAIL")):
            with np.errstate(all="ignore"):
                r = v[b] / v[c]
            w[a] = np.where(np.isfinite(r), r, 900.)
    return w, hyd


def wrf(u, rec, d):
    nssl = u["scheme"].lower() == "nssl"
    i = 0
    for nh, nuwrf, gr, hail, cut in itertools.product((2, 3), (False, True), (False, True), (False, True), (None, 1e-4)):
        if (nssl and (gr or hail)) or (hail and not gr):
            continue
        path = os.path.join(d, "w%d.nc" % i)
        i += 1
        v = wrf_file(path, u["t"], u["lat"], u["lon"], nh, nssl)
        wrf_module(path)
        case = dict(u, levels=nh, nuwrf=nuwrf, graupel=gr, hail=hail, cutoff=cut)
        kw = {} if cut is None else {"q_hyd_truncation_cutoff": cut}
        m = load(rec, "WRF", path, case, mcphys_scheme=u["scheme"], NUWRF=nuwrf, include_gr_class=gr, gr_class_is_hail=hail, **kw)
        rec.state((u["scheme"], nh, nuwrf, gr, hail, u["lat"], u["t"]))
        if m is None:
            continue
        w, hyd = wrf_expect(v, u["scheme"], nuwrf, gr, cut or 1e-14)
        rec.check(m.hyd_types == hyd, "classes", "classes are %s instead of %s" % (m.hyd_types, hyd), case)
        if nssl:
            rec.check(m.variable_density == {"gr": "RHO_GRAUPEL", "ha": "RHO_HAIL"}, "density", "no variable densities", case)
        if gr:
            rec.check(m.Rho_hyd["gr"].magnitude == (900. if hail else 400.), "density", "density of the graupel class is %s" % m.Rho_hyd["gr"], case)
        judge(rec, m, w, None, u["lat"], u["lon"], case)
        m.ds.close()
        os.remove(path)
    rec.outcome(str(u))


# ---------------------------------------------------------------- DHARMA
def dharma_file(path, nt, na, no, nh, tdim="dom_col", times=None, pir=True):
    g = Tag(nt, na, no, nh)
    dims = (tdim, "y", "x", "hgt")
    v = {"p": g.arr("p", 100, 1000), "t": g.arr("t", 200, 300), "z": g.arr("z", 0, 2e4), "q": g.arr("q", 0, .02), "conv_dat": g.arr("c", 0, 0)}
    for h in HY + (("pir",) if pir else ()):
        for n in ("n%s", "q%s", "strat_%s_frac", "re_strat_%s"):
            v[n % h] = g.arr(n % h, .1, 9.).astype("float32").astype(float)
    order = tuple(x for x, k in zip(dims, (1, na, no, 1)) if k is not None)
    ds = xr.Dataset({k: put(a, dims, order, na, no).astype("float32" if k[0] in "nqrs" else "float64") for k, a in v.items()})
    ds["p"].attrs["units"], ds["t"].attrs["units"], ds["z"].attrs["units"] = "hPa", "K", "m"
    c = {"hgt": np.arange(nh) * 100.}
    if times is not None:
        c[tdim] = times
    if na:
        c["y"] = np.arange(na) * 50.
    if no:
        c["x"] = np.arange(no) * 50.
    ds.assign_coords(c).to_netcdf(path)
    v = {k: (a.astype("float32").astype(float) if k[0] in "nqrs" else a) for k, a in v.items()}
    v["rho_a"] = v["p"] * 1e2 / (RD * v["t"])
    return v


def dharma(u, rec, d):
    i = 0
    for nh, one, tdim, box in itertools.product((2, 3), (True, False), ("dom_col", "time"), (False, True)):
        if box and not (u["lat"] or 0) > 1:
            continue
        path = os.path.join(d, "d%d.nc" % i)
        i += 1
        v = dharma_file(path, u["t"], u["lat"], u["lon"], nh, tdim, None)
        case = dict(u, levels=nh, single_pi_class=one, time_dim=tdim, box=box)
        kw = {"bounding_box": (0., 50., 1e3, 1e3)} if box else {}
        m = load(rec, "DHARMA", path, case, single_pi_class=one, time_dim=tdim, **kw)
        rec.state((nh, one, tdim, box, u["t"], u["lat"]))
        if m is None:
            continue
        if box:
            v = {k: a[:, 1:] for k, a in v.items()}
        rec.check(m.hyd_types == list(HY) + ([] if one else ["pir"]), "classes", "classes are %s" % m.hyd_types, case)
        for h in m.hyd_types:
            s = (m.N_field[h], m.strat_frac_names[h], m.q_names_stratiform[h], m.strat_re_fields[h], m.conv_frac_names[h], m.q_names_convective[h], m.conv_re_fields[h])
            rec.check(s == ("n" + h, "strat_%s_frac" % h, "q" + h, "re_strat_" + h, "conv_dat", "conv_dat", "conv_dat"), "fields:" + h, "fields of class %s are %s" % (h, s), case)
        judge(rec, m, v, None, (v["t"].shape[1] if u["lat"] else None), u["lon"], case)
        m.ds.close()
        os.remove(path)
    rec.outcome(str(u))


# ---------------------------------------------------------------- time ranges
def ranges(n):
    """Half-open ranges whose ends lie on and between the instants, before and after them."""
    t0 = np.datetime64("2020-03-01T00:00:00")
    pts = [t0 + np.timedelta64(15 * k, "m") for k in range(-1, 2 * n + 1)]
    for a, b in itertools.combinations(pts, 2):
        yield a, b


FORMS = (("array", lambda r: np.array(r)), ("tuple", tuple), ("list", list))


def crop_loop(u, rec, d, cls, n, want, path, kw, lat, lon, forms=FORMS):
    T = stamps(n)
    for a, b in ranges(n):
        keep = [i for i in range(n) if a <= T[i] < b]
        for f, mk in forms:
            case = dict(u, range=(str(a), str(b)), given_as=f)
            rec.state((f, tuple(keep)))
            m = load(rec, cls, path, case, time_range=mk((a, b)), **kw)
            if m is None:
                continue
            idx = keep or list(range(n))             # a range without output is ignored (documented)
            judge(rec, m, {k: x[idx] for k, x in want.items()}, None, lat, lon, case)
            m.ds.close()
    rec.outcome(str(u))


def bad_range(rec, cls, path, kw):
    import emc2
    for r in (np.array([0., 1.]), (0., 1.), [0, 1], ("a", "b"), np.array([1, 2])):
        rec.trace()
        try:
            with env.quiet():
                getattr(emc2.core.model, cls)(path, time_range=r, **kw)
            rec.check(False, "range-type", "a time range that holds no times was accepted", {"cls": cls, "range": str(r)})
        except RuntimeError:
            pass
        except Exception as e:
            rec.check(False, "range-type", "a time range that holds no times gave %s instead of the documented RuntimeError" % type(e).__name__, {"cls": cls, "range": str(r)})


def crop_e(u, rec, d):
    n = 3
    for lat, lon in ((None, None), (2, 2))[u["crop"]:][:1]:
        path = os.path.join(d, "c%s.nc" % lat)
        want = modele_file(path, n, lat, lon, 2, ("time",) + (("lat", "lon") if lat else ()) + ("p",), "p", stamps(n))
        crop_loop(dict(u, lat=lat), rec, d, "ModelE", n, want, path, {}, lat, lon)
    bad_range(rec, "ModelE", path, {})


def crop_s(u, rec, d):
    n, nh = 3, 2
    for kind, (cls, kw) in list(itertools.product(("time", "region", "ncol"), (CONF[0], CONF[4], CONF[6])))[u["crop"]:][:1]:
        lat, lon = (2, 2) if kind == "region" else (None, None)
        g = Tag(n, lat, lon, nh)
        v, A, B, ps = e3sm_values(g, nh)
        path = os.path.join(d, "s%s%s.nc" % (kind, cls))
        if kind == "ncol":
            e3sm_file(path, v, A, B, ps, ("ncol", "lev"), "ncol", np.arange(n) / 48.)
        else:
            e3sm_file(path, v, A, B, ps, ("time", "lev") + (("lat", "lon") if lat else ()), "time", stamps(n), lat=lat, lon=lon)
        want = e3sm_expect(v, A, B, ps, hyds(cls, kw), cls == "E3SMv3")
        k = dict(kw, time_dim="ncol") if kind == "ncol" else kw
        crop_loop(dict(u, layout=kind, cls=cls), rec, d, cls, n, want, path, k, lat, lon, FORMS if cls == "E3SMv1" else FORMS[:1])
        bad_range(rec, cls, path, k)


def boxes(ns, nw):
    return [(a, b, c, e) for a, c in itertools.combinations_with_replacement(range(ns), 2) for b, e in itertools.combinations_with_replacement(range(nw), 2)]


def crop_d(u, rec, d):
    if u["crop"] == "box":
        path = os.path.join(d, "b.nc")
        want = dharma_file(path, 2, 3, 2, 2, "time", stamps(2))          # y = 0, 50, 100; x = 0, 50
        for a, b, c, e in boxes(3, 2):
            for lo, hi in ((0., 0.), (-1., 1.), (-24., 24.)):            # a domain in x, y includes both ends
                box = (50. * b + lo, 50. * a + lo, 50. * e + hi, 50. * c + hi)
                case = dict(u, box=box)
                rec.state(box)
                m = load(rec, "DHARMA", path, case, time_dim="time", bounding_box=box)
                if m is not None:
                    judge(rec, m, {k: x[:, a:c + 1, b:e + 1] for k, x in want.items()}, None, c - a + 1, e - b + 1, case)
                    m.ds.close()
        rec.outcome("boxes")
        return
    n = 3
    for lat, lon in ((None, None), (2, 2))[u["crop"]:][:1]:
        path = os.path.join(d, "d%s.nc" % lat)
        want = dharma_file(path, n, lat, lon, 2, "time", stamps(n))
        crop_loop(dict(u, lat=lat), rec, d, "DHARMA", n, want, path, {"time_dim": "time"}, lat, lon)
    bad_range(rec, "DHARMA", path, {"time_dim": "time"})


def crop_w(u, rec, d):
    if u["crop"] == "box":
        path = os.path.join(d, "b.nc")
        v = wrf_file(path, 2, 3, 2, 2, True)                             # latitudes 30, 30.5, 31; longitudes -100, -98
        wrf_module(path)
        want = wrf_expect(v, "nssl", False, False, 1e-14)[0]
        for a, b, c, e in boxes(3, 2):
            for j in (0., .2, -.2):                                      # the rows and columns nearest to the corners
                box = (30. + .5 * a + j, -100. + 2 * b + j, 30. + .5 * c + j, -100. + 2 * e + j)
                case = dict(u, box=box)
                rec.state(box)
                m = load(rec, "WRF", path, case, mcphys_scheme="nssl", bounding_box=box)
                if m is not None:
                    judge(rec, m, {k: x[:, a:c + 1, b:e + 1] for k, x in want.items()}, None, c - a + 1, e - b + 1, case)
                    m.ds.close()
        rec.outcome("boxes")
        return
    n = 3
    for scheme, lat, lon in (("nssl", 2, 2), ("morrison", 1, 1))[u["crop"]:][:1]:
        path = os.path.join(d, "w%s.nc" % lat)
        v = wrf_file(path, n, lat, lon, 2, scheme == "nssl")
        wrf_module(path)
        want = wrf_expect(v, scheme, False, False, 1e-14)[0]
        crop_loop(dict(u, lat=lat), rec, d, "WRF", n, want, path, {"mcphys_scheme": scheme}, lat, lon)
