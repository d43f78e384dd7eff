"""P26: displays show exactly the selected data, at their own time and height, and leave the data alone."""
import itertools
import math

import numpy as np
import xarray as xr

from .. import synth

BOUNDS = {
    "quick": "time-height curtains of a subcolumn, a grid-box field, an instrument field and a mixing ratio; subcolumn-height profiles; mean profiles; gridded cloud fraction and scattering-ratio "
             "curtains; frequency diagrams; all-subcolumn curtains: 1-3 subcolumns x 2-3 times x 2-3 levels (from 1 where a mean is drawn) x every subcolumn / time / column x pressure or height axis "
             "x date or numeric times x masks (none, every kind of value; transparent or hatched) x linear or logarithmic colours with and without limits x time selections (none, one, ranges) "
             "x arithmetic or geometric means x positions selected by index or value, and changed afterwards; every ordered pair of drawings on one display",
    "thorough": "as quick with up to 4 subcolumns, 4 times and 4 levels",
}
RULE = "state = one drawing; judged point by point: what the artists show at the time and height of every grid cell against the dataset"
ASSUMPTIONS = ["drawn with the non-interactive matplotlib backend and read back from the artists, so rasterisation itself is not judged",
               "a curtain needs at least two times and two levels for its cells to have an extent"]


def units(tier):
    q = tier == "quick"
    S = (1, 2, 3) if q else (1, 2, 3, 4)
    u = []
    big = lambda T, H: not q or T + H < 6
    for kind in ("curtain", "q"):
        for N, T, H in itertools.product(S, S[1:], S[1:]):
            if not big(T, H):
                continue
            u.append({"kind": kind, "N": N, "T": T, "H": H})
    u += [{"kind": "qf", "N": N, "T": T, "H": H} for N, T, H in ((2, 3, 2), (3, 2, 3))]
    for N, T, H in itertools.product(S[1:], S, S[1:]):
        u.append({"kind": "profile", "N": N, "T": T, "H": H})
    for N, T, H in itertools.product(S, S, S):
        u.append({"kind": "mean", "N": N, "T": T, "H": H})
    for T, H in itertools.product(S[1:], S[1:]):
        u.append({"kind": "inst", "T": T, "H": H})
    for T, H in itertools.product(S, S):
        u.append({"kind": "instmean", "T": T, "H": H})
    for N, T, H in itertools.product(S, S[1:], S[1:]):
        if not big(T, H):
            continue
        u.append({"kind": "gridded", "N": N, "T": T, "H": H})
        u.append({"kind": "allsub", "N": N, "T": T, "H": H})
    u.append({"kind": "allsub", "N": 3, "T": 1, "H": 3, "only_data": True})
    for a, o in itertools.product((None, 2, 3), (None, 2, 3)):
        u.append({"kind": "region", "lat": a, "lon": o})
    u += [{"kind": "cfad", "n": n} for n in (2, 4)] + [{"kind": "mask"}, {"kind": "stat"}]
    u += [{"kind": "pairs", "first": k} for k in range(len(DRAW))]
    return u


def run_unit(u, rec):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    try:
        globals()["u_" + u["kind"]](u, rec)
    finally:
        plt.close("all")


# ---- data ----------------------------------------------------------------------------------------
DAY = np.datetime64("2016-08-16T00:00:00")
HOURS = [0, 3, 4, 9]
PRES = [960., 700., 520., 300.]
ZED = [300., 2500., 4100., 9000.]


def times(T, dates=True):
    h = HOURS[:T]
    return np.array([DAY + np.timedelta64(x, "h") for x in h]) if dates else np.array(h, dtype=float)


def field(shape, k=0, lo=-40., step=1.37, holes=True):
    n = int(np.prod(shape))
    v = lo + step * np.arange(n) + .01 * k
    if holes:
        v[(np.arange(n) + k) % 5 == 2] = np.nan
    return v.reshape(shape)


def model(N, T, H, dates=True, flatz=False):
    z = np.array(ZED[:H])[None] + (0. if flatz else 40. * np.arange(T)[:, None])
    p = np.array(PRES[:H])[None] - (2. * np.arange(T)[:, None])
    m = synth.make_model(T, H, z=z, p=p, process_conv=False)
    d = m.ds
    d["time"] = ("time", times(T, dates))
    d["height"] = ("height", np.array(PRES[:H]))
    S = ("subcolumn", "time", "height")
    d["sub_col_Ze_tot"] = (S, field((N, T, H)))
    d["sub_col_Vd_tot"] = (S, field((N, T, H), 1, -2., .11))
    d["sub_col_beta_p_tot"] = (S, 10 ** field((N, T, H), 2, -8., .07))
    d["strat_q"] = (S, field((N, T, H), 3, 1e-5, 1.3e-6))
    d["phase_mask"] = (S, (np.arange(N * T * H).reshape(N, T, H) % 4).astype(float))
    d["phase_mask"].attrs["legend"] = ["Cloud", "Rain", "Mixed"]
    d["box"] = (("time", "height"), field((T, H), 4, 1e-6, 2e-7))
    m.ds = d
    return m


def snapshot(ds):
    return {k: np.array(ds[k].values, copy=True) for k in ds.variables}


def unchanged(ds, snap):
    bad = [k for k in snap if k not in ds.variables or ds[k].shape != snap[k].shape
           or not (np.array_equal(ds[k].values, snap[k], equal_nan=True) if snap[k].dtype.kind == "f" else np.array_equal(ds[k].values, snap[k]))]
    return bad + [k for k in ds.variables if k not in snap]


def display(m, **kw):
    import emc2
    return emc2.plotting.SubcolumnDisplay(m, figsize=(2, 2), **kw)


# ---- reading what was drawn -----------------------------------------------------------------------
def meshes(ax):
    out = []
    for c in ax.collections:
        if hasattr(c, "get_coordinates") and c.get_array() is not None:
            out.append(c)
    return out


def cells(c):
    """[(x range, y range, value or None)] of a mesh."""
    xy = np.asarray(c.get_coordinates())
    a = np.ma.masked_invalid(np.ma.array(c.get_array()).reshape(xy.shape[0] - 1, xy.shape[1] - 1))
    out = []
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            q = xy[i:i + 2, j:j + 2].reshape(-1, 2)
            out.append((q[:, 0].min(), q[:, 0].max(), q[:, 1].min(), q[:, 1].max(), None if np.ma.getmaskarray(a)[i, j] else float(a[i, j])))
    return out


def shown(cs, x, y):
    return [v for a, b, c, d, v in cs if a < x < b and c < y < d]


def x_of(t):
    import matplotlib.dates as mdates
    t = np.asarray(t)
    return mdates.date2num(t) if np.issubdtype(t.dtype, np.datetime64) else t.astype(float)


def judge(rec, key, ax, xs, ys, want, case, which=0):
    """What is shown at (xs[i], ys[k]) is want[i, k]."""
    ms = meshes(ax)
    if not rec.check(len(ms) > which, key + ":drawn", "nothing is drawn", case):
        return None
    cs = cells(ms[which])
    rec.step(want.size)
    for i, k in itertools.product(range(want.shape[0]), range(want.shape[1])):
        got = shown(cs, xs[i], ys[k])
        w = want[i, k]
        ok = len(got) == 1 and ((got[0] is None) if not np.isfinite(w) else (got[0] is not None and abs(got[0] - w) <= 1e-9 * abs(w)))
        if not rec.check(ok, key, lambda: "the picture shows %r at x=%g, y=%g (position %d, level %d) instead of %r" % (got, xs[i], ys[k], i, k, float(w)), case):
            return None
    rec.check(len(cs) == want.size, key + ":cells", lambda: "%d cells are drawn instead of %d" % (len(cs), want.size), case)
    return ms[which]


MASKS = {"bool": lambda s: np.arange(int(np.prod(s))).reshape(s) % 3 == 1,
         "int": lambda s: np.array([0, 2, 0, -1, 1])[np.arange(int(np.prod(s))) % 5].reshape(s),
         "float": lambda s: np.array([.5, 0., 0.])[np.arange(int(np.prod(s))) % 3].reshape(s),
         "wrong": lambda s: np.ones((s[0] + 1, s[1]), bool)}


def limits_ok(rec, key, mesh, log, vm, case):
    from matplotlib.colors import LogNorm
    rec.check(isinstance(mesh.norm, LogNorm) == bool(log), key + ":scale", lambda: "colours are %s" % type(mesh.norm).__name__, case)
    if vm:
        rec.check((mesh.norm.vmin, mesh.norm.vmax) == vm, key + ":limits", lambda: "colour limits are (%r, %r), expected %r" % (mesh.norm.vmin, mesh.norm.vmax, vm), case)


def inverted(ax):
    a, b = ax.get_ylim()
    return a > b


# ---- curtains --------------------------------------------------------------------------------------
def u_curtain(u, rec):
    curtains(u, rec, "plot_subcolumn_timeseries", ["sub_col_Ze_tot", "sub_col_beta_p_tot", "box"], 1.)


def u_q(u, rec):
    curtains(u, rec, "plot_column_input_q_timeseries", ["strat_q", "box"], 1000.)


def u_qf(u, rec):
    """The same drawing as a function of the statistics package."""
    from emc2.statistics_LLNL.statistical_plots import plot_column_input_q_timeseries as f
    curtains(u, rec, "statistics:plot_column_input_q_timeseries", ["strat_q", "box"], 1000., f)


def curtains(u, rec, method, names, fac, func=None):
    import matplotlib.pyplot as plt
    N, T, H = u["N"], u["T"], u["H"]
    base = [(dates, pc) for dates in (True, False) for pc in (True, False)]
    opts = [dict(mask=None, hatch=False, log=False, vm=None, cbar=True)]
    opts += [dict(opts[0], mask=k, hatch=h) for k in MASKS for h in (False, True, "//") if not (h and k not in ("bool", "int"))]
    opts += [dict(opts[0], log=l, vm=v, cbar=c) for l in (False, True) for v in (None, (1e-9, 1e-3)) for c in (True, False) if l or v or not c]
    for name in names:
        for (dates, pc), o in itertools.product(base, opts):
            if o["log"] and name == "sub_col_Ze_tot":
                continue
            if o is not opts[0] and (dates, pc) != base[hash_of(name, o) % 4] and o["mask"] != "bool":
                continue
            m = model(N, T, H, dates)
            snap = snapshot(m.ds)
            d = display(m)
            for col in range(N if name != "box" else 1):
                case = {"method": method, "variable": name, "column": col, "dates": dates, "pressure": pc, "options": o, "unit": u}
                kw = {}
                if o["mask"]:
                    mask = MASKS[o["mask"]]((T, H))
                    keep = mask.copy()
                    kw.update(Mask_array=mask, hatched_mask=o["hatch"])
                if o["vm"]:
                    kw.update(vmin=o["vm"][0], vmax=o["vm"][1])
                d.axes[0].cla()
                r = (getattr(d, method) if func is None else lambda *a, **k: func(d, *a, **k))(name, column_no=col, pressure_coords=pc, title="x", log_plot=o["log"], colorbar=o["cbar"], subplot_index=(0,), **kw)
                rec.trace()
                rec.state((method, name, N, T, H, col, dates, pc, repr(o)))
                ax = d.axes[0]
                rec.check((isinstance(r, tuple) and len(r) == 2 and r[0] is ax) if o["cbar"] else r is ax, method + ":return", "the documented handles are not returned", case)
                v = snap[name]
                want = (v[col] if v.ndim == 3 else v) * fac
                if o["mask"] in ("bool", "int", "float") and not o["hatch"]:
                    want = np.where(mask > 0, np.nan, want)
                y = snap["height"] if pc else snap["z"].mean(axis=0) / (1000. if fac == 1000. else 1.)
                mesh = judge(rec, method, ax, x_of(snap["time"]), y, want, case)
                if mesh is not None:
                    limits_ok(rec, method, mesh, o["log"], o["vm"], case)
                    if o["hatch"]:
                        ms = [c for c in ax.collections if c.get_hatch()]
                        if rec.check(len(ms) == 1, method + ":hatch", "masked cells are not hatched", case):
                            cs = cells(ms[0])
                            for i, k in itertools.product(range(T), range(H)):
                                got = shown(cs, x_of(snap["time"])[i], y[k])
                                rec.check(any(g is not None for g in got) == bool(mask[i, k] > 0), method + ":hatch", lambda: "hatching at time %d level %d is %r" % (i, k, got), case)
                rec.check(inverted(ax) == pc, method + ":axis", "pressure must decrease and height increase upwards", case)
                if o["mask"]:
                    rec.check(np.array_equal(mask, keep), method + ":argument", "the mask passed in was modified", case)
                bad = unchanged(m.ds, snap)
                rec.check(not bad, method + ":model", lambda: "drawing modified the model: %r" % bad, case)
            plt.close("all")
    rec.outcome((method, N, T, H))
    rec.sample({"unit": u})


def hash_of(name, o):
    return sum(map(ord, name + repr(sorted((k, repr(v)) for k, v in o.items()))))


def u_profile(u, rec):
    import matplotlib.pyplot as plt
    N, T, H = u["N"], u["T"], u["H"]
    for name, pc, mk, (log, vm) in itertools.product(("sub_col_Vd_tot", "sub_col_beta_p_tot"), (True, False), (None, "bool", "int", "wrong"), ((False, None), (True, None), (True, (1e-9, 1e-5)), (False, (0., 1.)))):
        if (log and name == "sub_col_Vd_tot") or (mk and vm):
            continue
        m = model(N, T, H)
        snap = snapshot(m.ds)
        d = display(m)
        for i in range(T):
            for sel in (str(snap["time"][i])[:19], snap["time"][i], snap["time"][i] + np.timedelta64(20, "m")):
                case = {"variable": name, "time": str(sel), "pressure": pc, "mask": mk, "log": log, "unit": u}
                kw = {}
                if mk:
                    mask = MASKS[mk]((N, H))
                    kw["Mask_array"] = mask
                if vm:
                    kw.update(vmin=vm[0], vmax=vm[1])
                d.axes[0].cla()
                if (i + bool(mk)) % 2:
                    kw["colorbar"] = False
                r = d.plot_single_profile(name, sel, pressure_coords=pc, log_plot=log, **kw)
                ax = d.axes[0]
                rec.check(r is ax if "colorbar" in kw else (isinstance(r, tuple) and len(r) == 2 and r[0] is ax), "profile:return", "the documented handles are not returned", case)
                rec.trace()
                rec.state(("profile", name, N, T, H, i, str(sel), pc, mk, log, vm))
                want = snap[name][:, i]
                if mk in ("bool", "int"):
                    want = np.where(mask > 0, np.nan, want)
                mesh = judge(rec, "profile", ax, np.arange(N, dtype=float), snap["height"] if pc else snap["z"][i], want, case)
                if mesh is not None:
                    limits_ok(rec, "profile", mesh, log, vm, case)
                rec.check(inverted(ax) == pc, "profile:axis", "pressure must decrease and height increase upwards", case)
                bad = unchanged(m.ds, snap)
                rec.check(not bad, "profile:model", lambda: "drawing modified the model: %r" % bad, case)
        plt.close("all")
    rec.outcome(("profile", N, T, H))


# ---- mean profiles ---------------------------------------------------------------------------------
def mean_of(vals, geom, dB):
    """Arithmetic or geometric mean and the standard deviation of the finite values, dBZ averaged as power; dB of the result where needed."""
    v = [x for x in vals if np.isfinite(x)]
    if dB:
        v = [10 ** (x / 10) for x in v]
    if geom:
        v = [math.log(x) for x in v if x > 0]
    if not v:
        return np.nan, np.nan
    mu = math.fsum(v) / len(v)
    sd = math.sqrt(math.fsum((x - mu) ** 2 for x in v) / len(v))
    return (math.exp(mu), math.exp(sd)) if geom else (mu, sd)


def judge_line(rec, key, ax, cols, ys, geom, dB, sd, case):
    """cols[k] are the values that enter level k."""
    if not rec.check(len(ax.lines) == 1, key + ":drawn", lambda: "%d lines are drawn" % len(ax.lines), case):
        return
    x, y = (np.ma.filled(np.ma.asarray(np.ma.masked_invalid(np.asarray(a, float))), np.nan) for a in ax.lines[0].get_data(orig=False))
    if not rec.check(len(x) == len(cols) and len(y) == len(cols), key + ":levels", lambda: "%d levels are drawn instead of %d" % (len(x), len(cols)), case):
        return
    band = [c for c in ax.collections if len(c.get_paths())]
    V = np.concatenate([p.vertices for c in band for p in c.get_paths()]) if band else np.zeros((0, 2))
    for k in range(len(cols)):
        rec.step()
        mu, s = mean_of(cols[k], geom, dB)
        w = 10 * math.log10(mu) if dB and np.isfinite(mu) else mu
        j = [i for i in range(len(y)) if abs(y[i] - ys[k]) <= 1e-9 * abs(ys[k])]
        ok = len(j) == 1 and ((not np.isfinite(x[j[0]])) if not np.isfinite(w) else abs(x[j[0]] - w) <= 1e-9 * max(1e-300, abs(w)) + (1e-12 if dB else 0))
        if not rec.check(ok, key, lambda: "the mean at level %d (y=%g) is %r instead of %r" % (k, ys[k], [x[i] for i in j], w), case):
            return
        if sd and not geom and np.isfinite(w):
            for b, name in ((mu - s, "lower"), (mu + s, "upper")):
                if dB:
                    if b <= 0 or (name == "lower" and s > mu * (1 - 1e-9)):
                        continue
                    b = 10 * math.log10(b)
                ok = any(abs(p - b) <= 1e-7 * (abs(b) + abs(w)) and abs(q - ys[k]) <= 1e-9 * abs(ys[k]) for p, q in V)
                rec.check(ok, key + ":sd", lambda: "the %s edge of the shading at level %d is not at %r" % (name, k, b), case)
    rec.check(sd or not band, key + ":shading", "shading is drawn without plot_SD", case)


def u_mean(u, rec):
    import matplotlib.pyplot as plt
    N, T, H = u["N"], u["T"], u["H"]
    ts = times(T)
    sels = [("all", None)] + [("one:%d:%d" % (i, f), (str(ts[i])[:19] if f == 0 else ts[i] if f == 1 else np.array([ts[i]]))) for i in range(T) for f in (0, 1, 2)]
    for a, b in itertools.combinations(range(T + 1), 2):
        end = ts[b] if b < T else ts[-1] + np.timedelta64(1, "h")
        sels += [("range:%d:%d:%d" % (a, b, f), ((str(ts[a])[:19], str(end)[:19]) if f == 0 else (ts[a], end) if f == 1 else np.array([ts[a], end]))) for f in (0, 1, 2)]
    for name, pc, geom, mk in itertools.product(("sub_col_Ze_tot", "sub_col_Vd_tot", "sub_col_beta_p_tot", "box"), (True, False), (False, True, "auto"), (None, "bool", "int")):
        m = model(N, T, H)
        snap = snapshot(m.ds)
        d = display(m)
        for n, (tag, sel) in enumerate(sels):
            if (mk or geom) and n and n % 4 != (pc + len(name)) % 4:
                continue
            v = snap[name] if snap[name].ndim == 3 else snap[name][None]
            if tag == "all":
                idx = list(range(T))
            elif tag.startswith("one"):
                idx = [int(tag.split(":")[1])]
            else:
                a, b = map(int, tag.split(":")[1:3])
                idx = list(range(a, b))
            w = v[:, idx]
            shape = w.shape if snap[name].ndim == 3 else w.shape[1:]
            if tag.startswith("one") and not isinstance(sel, np.ndarray):
                shape = shape[:-2] + shape[-1:]
            kw = {}
            if mk:
                if int(np.prod(shape)) == 1:
                    continue
                mask = np.array([0, 1, 0, -1, 0, 2])[np.arange(int(np.prod(shape))) % 6].reshape(shape)
                mask = mask > 0 if mk == "bool" else mask
                keep = mask.copy()
                kw["Mask_array"] = mask
                w = np.where(mask.reshape(w.shape) > 0, np.nan, w)
            case = {"variable": name, "time": str(sel), "pressure": pc, "geom": geom, "mask": mk, "unit": u}
            g = geom if geom != "auto" else name != "sub_col_Vd_tot" and name != "box"
            psd = n % 2 == 0
            if n % 4:               # shading is drawn unless declined
                kw["plot_SD"] = psd
            d.axes[0].cla()
            ax = d.plot_subcolumn_mean_profile(name, time=sel, pressure_coords=pc, use_geom_mean=geom, title="x", **kw)
            rec.trace()
            rec.state(("mean", name, N, T, H, tag, pc, geom, mk))
            y = snap["p_3d" if pc else "z"][idx].mean(axis=0)
            judge_line(rec, "mean", ax, [w[:, :, k].ravel() for k in range(H)], y, g, "Ze" in name, psd, case)
            rec.check(inverted(ax) == pc, "mean:axis", "pressure must decrease and height increase upwards", case)
            if mk:
                rec.check(np.array_equal(mask, keep), "mean:argument", "the mask passed in was modified", case)
            bad = unchanged(m.ds, snap)
            rec.check(not bad, "mean:model", lambda: "drawing modified the model: %r" % bad, case)
        plt.close("all")
    rec.outcome(("mean", N, T, H))


# ---- instruments -----------------------------------------------------------------------------------
def instrument(T, H, axis, dates=True):
    i = synth.make_instrument("lidar")
    i.ds = xr.Dataset({"beta": (("time", axis), 10 ** field((T, H), 1, -8., .1)), "Ze": (("time", axis), field((T, H)))},
                      coords={"time": times(T, dates), axis: np.array(ZED[:H])})
    return i


def u_inst(u, rec):
    import matplotlib.pyplot as plt
    T, H = u["T"], u["H"]
    for axis, name, dates, mk, (log, vm) in itertools.product(("range", "altitude", "height"), ("beta", "Ze"), (True, False), (None, "bool", "int", "wrong"),
                                                              ((False, None), (True, None), (True, (1e-9, 1e-5)), (False, (0., 1.)))):
        if (log and name == "Ze") or (mk and vm):
            continue
        m, i = model(2, 2, 2), instrument(T, H, axis, dates)
        snap = snapshot(i.ds)
        d = display(m)
        case = {"variable": name, "axis": axis, "dates": dates, "mask": mk, "log": log, "unit": u}
        kw = {}
        if mk:
            mask = MASKS[mk]((T, H))
            kw["Mask_array"] = mask
        if vm:
            kw.update(vmin=vm[0], vmax=vm[1])
        ax, cb = d.plot_instrument_timeseries(i, name, title="x", log_plot=log, **kw)
        rec.trace()
        rec.state(("inst", T, H, axis, name, dates, mk, log, vm))
        want = snap[name]
        if mk in ("bool", "int"):
            want = np.where(mask > 0, np.nan, want)
        mesh = judge(rec, "instrument", ax, x_of(snap["time"]), snap[axis], want, case)
        if mesh is not None:
            limits_ok(rec, "instrument", mesh, log, vm, case)
        rec.check(not inverted(ax), "instrument:axis", "height must increase upwards", case)
        bad = unchanged(i.ds, snap)
        rec.check(not bad, "instrument:data", lambda: "drawing modified the observations: %r" % bad, case)
        plt.close("all")
    rec.outcome(("inst", T, H))


def u_instmean(u, rec):
    import matplotlib.pyplot as plt
    T, H = u["T"], u["H"]
    ts = times(T)
    sels = [("all", None)] + [("%d:%d" % (a, b), np.array([ts[a], ts[b] if b < T else ts[-1] + np.timedelta64(1, "h")])) for a, b in itertools.combinations(range(T + 1), 2)]
    for axis, name, geom, mk, (tag, sel) in itertools.product(("range", "altitude", "height"), ("beta", "Ze"), (False, True, "auto"), (None, "bool", "int"), sels):
        m, i = model(2, 2, 2), instrument(T, H, axis)
        snap = snapshot(i.ds)
        d = display(m)
        idx = list(range(T)) if sel is None else list(range(*map(int, tag.split(":"))))
        w = snap[name][idx]
        kw = {}
        if mk:
            mask = np.array([0, 1, 0, -1, 0, 2])[np.arange(w.size) % 6].reshape(w.shape)
            mask = mask > 0 if mk == "bool" else mask
            kw["Mask_array"] = mask
            w = np.where(mask > 0, np.nan, w)
        case = {"variable": name, "axis": axis, "time_range": str(sel), "geom": geom, "mask": mk, "unit": u}
        psd = geom is not True
        if geom != "auto":
            kw["plot_SD"] = psd
        ax = d.plot_instrument_mean_profile(i, name, time_range=sel, pressure_coords=False, use_geom_mean=geom, **kw)
        rec.trace()
        rec.state(("instmean", T, H, axis, name, geom, mk, tag))
        rec.check(ax is d.axes[0], "instmean:return", "the documented handle is not returned", case)
        judge_line(rec, "instmean", d.axes[0], [w[:, k] for k in range(H)], snap[axis], bool(geom), name == "Ze", psd, case)
        bad = unchanged(i.ds, snap)
        rec.check(not bad, "instmean:data", lambda: "drawing modified the observations: %r" % bad, case)
        plt.close("all")
    rec.outcome(("instmean", T, H))


# ---- gridded curtains and frequency diagrams -------------------------------------------------------
def u_gridded(u, rec):
    import matplotlib.pyplot as plt
    N, T, H = u["N"], u["T"], u["H"]
    mid = np.array([.24, .72, 1.2, 1.68])[:H]
    for C, dates in itertools.product((1, 2), (True, False)):
        m = model(N, T, 2, dates)
        cf = (np.arange(T * H * C) % 4 / 4.).reshape(T, H, C)
        sr = (np.arange(N * T * H * C) % 7 * 1.5).reshape(N, T, H, C)
        cf[0, 0, 0] = -1e30
        for c in range(C):
            d = display(m)
            a, g = cf.copy(), mid.copy()
            case = {"what": "cloud fraction", "column": c, "dates": dates, "unit": u}
            for again in range(2):
                d.axes[0].cla()
                d.plot_regridded_CF_timeseries(a, g, c, title="x", colorbar=not again)
                rec.trace()
                judge(rec, "CF", d.axes[0], x_of(m.ds["time"].values), mid, np.where(cf[:, :, c] > 0, cf[:, :, c], np.nan), case)
            rec.state(("CF", N, T, H, C, c, dates))
            rec.check(np.array_equal(a, cf) and np.array_equal(g, mid), "CF:argument", "the array passed in was modified", case)
            for s in range(N):
                a, g = sr.copy(), mid.copy()
                case = {"what": "scattering ratio", "column": c, "subcolumn": s, "dates": dates, "unit": u}
                d.axes[0].cla()
                d.plot_regridded_SR_timeseries(a, g, c, s, title="x", colorbar=False)
                rec.trace()
                rec.state(("SR", N, T, H, C, c, s, dates))
                judge(rec, "SR", d.axes[0], x_of(m.ds["time"].values), mid * 1000., np.where(sr[s, :, :, c] != 0, sr[s, :, :, c], np.nan), case)
                rec.check(np.array_equal(a, sr) and np.array_equal(g, mid), "SR:argument", "the array passed in was modified", case)
            plt.close("all")
    rec.outcome(("gridded", N, T, H))


def u_cfad(u, rec):
    import matplotlib.pyplot as plt
    import emc2.statistics_LLNL.statistical_plots as sp
    n = u["n"]
    ze = np.arange(-50., -50. + 5 * (6 + 1), 5.)
    sr = np.array([-1., .01, 1.2, 3, 5, 7, 10, 15, 20, 25, 30, 40, 50, 60, 80, 999])
    for kind, dz, vm in itertools.product(("radar", "lidar"), (.48, .3), (None, (0., .5), (.1, .2))):
        mid = (np.arange(n) + .5) * dz
        e = ze if kind == "radar" else sr
        a = (np.arange(n * (len(e) - 1)) % 11 / 40.).reshape(n, -1)
        keep = a.copy()
        kw = {} if vm is None else {"vmin": vm[0], "vmax": vm[1]}
        (sp.plot_radar_CFAD if kind == "radar" else sp.plot_lidar_SR_CFAD)(e, mid, a, 0, **kw)
        rec.trace()
        rec.state(("cfad", kind, n, dz, vm))
        ax = plt.gcf().axes[0]
        case = {"kind": kind, "dz": dz, "limits": vm, "unit": u}
        x = (e[:-1] + e[1:]) / 2 if kind == "radar" else np.arange(len(e) - 1) + .5
        mesh = judge(rec, "cfad", ax, x, mid, a.T, case)
        if mesh is not None:
            lim = (mesh.norm.vmin, mesh.norm.vmax)
            rec.check(lim == vm if vm else lim[0] < lim[1], "cfad:limits", lambda: "colour limits are %r" % (lim,), case)
        rec.check(np.array_equal(a, keep), "cfad:argument", "the array passed in was modified", case)
        plt.close("all")
    rec.outcome(("cfad", n))


# ---- curtains of all subcolumns --------------------------------------------------------------------
def e3sm(N, T, H, C):
    m = model(1, 2, 2)
    S = ("subcolumn", "time", "lev", "ncol")
    shape = (N, T, H, C)
    d = {"sub_col_Ze_att_tot": (S, field(shape)), "sub_col_beta_att_tot": (S, 10 ** field(shape, 1, -8., .01)), "sub_col_Ze_tot": (S, field(shape, 2)),
         "sub_col_beta_p_tot": (S, 10 ** field(shape, 3, -8., .01)), "z": (("time", "lev", "ncol"), np.array(ZED[:H])[None, :, None] + 50. * np.arange(C) + np.zeros((T, 1, 1)))}
    for k, h in enumerate(("cl", "ci", "pl", "pi")):
        d["strat_q_subcolumns_" + h] = (S, np.where(np.arange(N * T * H * C).reshape(shape) % (k + 2) == 0, 0., 1e-5 + 1e-7 * np.arange(N * T * H * C).reshape(shape) + 1e-6 * k))
    d["sub_col_Ze_att_tot"][1][0, 0, 0, 0] = d["sub_col_Ze_tot"][1][0, 0, 0, 0] = -1e30
    m.ds = xr.Dataset(d, coords={"time": np.array([DAY + np.timedelta64(3 * i, "h") for i in range(T)]), "lev": np.array(PRES[:H]), "subcolumn": np.arange(N)})
    m.time_dim, m.height_dim = "time", "lev"
    return m


def u_allsub(u, rec):
    import matplotlib.pyplot as plt
    import emc2.statistics_LLNL.statistical_plots as sp
    N, T, H = u["N"], u["T"], u["H"]
    for C in (1, 2):
        m = e3sm(N, T, H, C)
        snap = snapshot(m.ds)
        tot, mol = np.abs(snap["sub_col_beta_att_tot"]), 1e-9 * (1 + np.arange(N * T * H * C)).reshape(N, T, H, C)
        at, am = tot.copy(), mol.copy()
        q = {h: snap["strat_q_subcolumns_" + h] for h in ("cl", "ci", "pl", "pi")}
        g = {h: np.where(v > 0, v, np.nan) * 1000. for h, v in q.items()}
        z = {k: np.where(snap[k] > -1e20, snap[k], np.nan) for k in ("sub_col_Ze_att_tot", "sub_col_Ze_tot")}
        figs = {"att": (sp.plot_every_subcolumn_timeseries_radarlidarsignal, [z["sub_col_Ze_att_tot"], snap["sub_col_beta_att_tot"]], {"vmin_radar": -30., "vmax_radar": 5., "vmin_lidar": 1e-7, "vmax_lidar": 1e-2}),
                "nonatt": (sp.plot_every_subcolumn_timeseries_nonatt_radarlidarsignal, [z["sub_col_Ze_tot"], snap["sub_col_beta_p_tot"]], {"vmin_radar": -30., "vmax_radar": 5., "vmin_lidar": 1e-7, "vmax_lidar": 1e-2}),
                "SR": (sp.plot_every_subcolumn_timeseries_SR, [tot / mol], {"vmin": 1., "vmax": 40.}),
                "q": (sp.plot_every_subcolumn_timeseries_mixingratio, [g["cl"], g["ci"], g["pl"], g["pi"]], {"vmin": 0., "vmax": .3}),
                "cp": (sp.plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation, [(q["cl"] + q["ci"]) * 1e3, (q["pl"] + q["pi"]) * 1e3], {"vmin": 0., "vmax": .3})}
        for c, kind, lim in itertools.product(range(C), figs, (False, True)):
            f, panels, lims = figs[kind]
            if u.get("only_data") and lim:
                continue
            case = {"figure": kind, "column": c, "limits": lim, "unit": u}
            args = ([m, at, am] if kind == "SR" else [m]) + [c, 0] + ([None, None] if kind == "cp" else [])
            try:
                f(*args, **(lims if lim else {}))
            except ValueError:
                if T > 1:
                    raise
            rec.trace()
            rec.state(("allsub", kind, N, T, H, C, c, lim))
            axes = [a for a in plt.gcf().axes if meshes(a) and a.get_xlabel() != "" or meshes(a)]
            axes = axes[:len(panels)]
            if T > 1:
                rec.check(len(axes) == len(panels), "allsub:panels", lambda: "%d panels are drawn" % len(axes), case)
                for j, (ax, p) in enumerate(zip(axes, panels)):
                    curtain_all(rec, kind, m, snap, ax, p[..., c], c, lims if lim else {}, j, case)
            bad = unchanged(m.ds, snap)
            rec.check(not bad, "allsub:model", lambda: "%s modified the model: %r" % (f.__name__, bad), case)
            rec.check(np.array_equal(at, tot, equal_nan=True) and np.array_equal(am, mol), "allsub:argument", "an array passed in was modified", case)
            plt.close("all")
    rec.outcome(("allsub", N, T, H))


def curtain_all(rec, kind, m, snap, ax, want, c, lims, j, case):
    """want: (subcolumn, time, level)."""
    N, T, H = want.shape
    mesh = meshes(ax)[0]
    cs = cells(mesh)
    x = x_of(snap["time"])
    step = x[1] - x[0]
    for k in range(H):
        y = snap["z"][0, k, c] / 1000.
        row = sorted([(a, b, v) for a, b, lo, hi, v in cs if lo < y < hi])
        if not rec.check(len(row) == N * T, "allsub:cells", lambda: "level %d has %d cells instead of %d" % (k, len(row), N * T), case):
            return
        for n, (a, b, v) in enumerate(row):
            t, s = divmod(n, N)
            w = want[s, t, k]
            rec.step()
            ok = (v is None) if not np.isfinite(w) else v is not None and abs(v - w) <= 1e-9 * abs(w)
            if not rec.check(ok, "allsub:%s" % kind, lambda: "panel %d: time %d subcolumn %d level %d shows %r instead of %r" % (j, t, s, k, v, float(w)), case):
                return
            mid = (a + b) / 2
            rec.check(x[t] - step - 1e-9 < mid <= x[t] + step * (.5 / N) + 1e-6, "allsub:time", lambda: "time %d subcolumn %d is drawn at %r" % (t, s, mid), case)
    if lims:
        want = (lims["vmin"], lims["vmax"]) if "vmin" in lims else (lims["vmin_radar"], lims["vmax_radar"]) if j == 0 else (lims["vmin_lidar"], lims["vmax_lidar"])
        rec.check((mesh.norm.vmin, mesh.norm.vmax) == want, "allsub:limits", lambda: "%s: colour limits of panel %d are (%r, %r), expected %r" % (kind, j, mesh.norm.vmin, mesh.norm.vmax, want), case)
    else:
        rec.check(mesh.norm.vmin < mesh.norm.vmax, "allsub:limits", lambda: "%s: colour limits of panel %d are (%r, %r)" % (kind, j, mesh.norm.vmin, mesh.norm.vmax), case)


# ---- regional output -------------------------------------------------------------------------------
LAT, LON = [10., 12.5, 20.], [-5., 3., 4.]


def region(la, lo):
    N, T, H = 2, 2, 3
    m = model(N, T, H)
    dims, shape, coords = [], [], {}
    for d, n, v in (("lat", la, LAT), ("lon", lo, LON)):
        if n:
            dims.append(d)
            shape.append(n)
            coords[d] = v[:n]
    ds = m.ds.drop_vars(["sub_col_Ze_tot"])
    ds = ds.assign_coords(coords)
    ds["sub_col_Ze_tot"] = (("subcolumn", "time", "height", *dims), field((N, T, H, *shape), holes=False))
    ds["z"] = ds["z"] if not dims else (("time", "height", *dims), np.broadcast_to(ds["z"].values.reshape(T, H, *[1] * len(dims)), (T, H, *shape)) + 15. * np.arange(int(np.prod(shape))).reshape(shape))
    m.ds = ds
    m.lat_dim, m.lon_dim = "lat", "lon"
    return m


def sels(n, vals):
    out = [(None, 0)]
    if n:
        out += [(i, i) for i in range(n)] + [(vals[i] + .4, i) for i in range(n)] + [(np.float64(vals[i]), i) for i in range(n)]
    return out


def u_region(u, rec):
    import matplotlib.pyplot as plt
    la, lo = u["lat"], u["lon"]
    L, O = sels(la, LAT), sels(lo, LON)
    for (sa, ia), (so, io) in itertools.product(L, O):
        m = region(la, lo)
        snap = snapshot(m.ds)
        d = display(m, lat_sel=sa, lon_sel=so)
        other = region(la, lo)
        other.ds["sub_col_Ze_tot"] = other.ds["sub_col_Ze_tot"] + 100.
        steps = [("construct", None, ia, io, snap)]
        for na, no in ((1, None), (None, 1), (1, 1), (0, 0)):
            if (na is not None and not la) or (no is not None and not lo):
                continue
            steps.append(("switch", (na, no), None, None, snap))
        cur = [ia, io]
        for what, arg, _, _, _ in steps:
            if what == "switch":
                d._switch_lat_lon(m, *arg)
                cur = [cur[i] if arg[i] is None else arg[i] for i in (0, 1)]
            case = {"lat_sel": sa, "lon_sel": so, "step": [what, arg], "unit": u}
            rec.state((la, lo, repr(sa), repr(so), what, arg))
            show(rec, "region:" + what, d, snap, cur, case)
        bad = unchanged(m.ds, snap)
        rec.check(not bad, "region:model", lambda: "displaying modified the model: %r" % bad, {"unit": u})
        plt.close("all")
    if not la and not lo:
        for name in (None, "my name"):
            m, other = model(2, 2, 3), model(2, 2, 3)
            other.ds["sub_col_Ze_tot"] = other.ds["sub_col_Ze_tot"] + 100.
            other.model_name = "other"
            d = display(m, **({"ds_name": name} if name else {}))
            for mm in (m, other, m):
                d._switch_model(mm)
                d.axes[0].cla()
                d.plot_subcolumn_timeseries("sub_col_Ze_tot", 1, title="x", colorbar=False)
                rec.trace()
                judge(rec, "switch_model", d.axes[0], x_of(mm.ds["time"].values), mm.ds["height"].values, mm.ds["sub_col_Ze_tot"].values[1], {"ds_name": name, "model": mm.model_name, "unit": u})
    rec.outcome(("region", la, lo))


def show(rec, key, d, snap, cur, case):
    v, z = snap["sub_col_Ze_tot"], snap["z"]
    i = cur[:v.ndim - 3] if v.ndim != 4 else [cur[0] if case["unit"]["lat"] else cur[1]]
    v, z = v[(Ellipsis, *i)], z[(Ellipsis, *i)] if z.ndim > 2 else z
    for col, pc in ((1, True), (0, False)):
        d.axes[0].cla()
        d.plot_subcolumn_timeseries("sub_col_Ze_tot", col, pressure_coords=pc, title="x", colorbar=False)
        rec.trace()
        judge(rec, key, d.axes[0], x_of(snap["time"]), snap["height"] if pc else z.mean(axis=0), v[col], case)


# ---- class masks, statistics -----------------------------------------------------------------------
def u_mask(u, rec):
    import matplotlib.pyplot as plt
    for n, nan, how, cm in itertools.product((1, 2, 3, 4), (False, True), ("legend", "variable"), (None, "viridis")):
        m = model(1, 3, 3)
        legend = ["c%d" % i for i in range(n)]
        v = (np.arange(9).reshape(1, 3, 3) % (n + 1)).astype(float)
        if nan:
            v[v == 0] = np.nan
        m.ds["phase_mask"] = (("subcolumn", "time", "height"), v)
        m.ds["phase_mask"].attrs["legend"] = list(legend)
        snap = snapshot(m.ds)
        d = display(m)
        ax, cb = d.plot_subcolumn_timeseries("phase_mask", 0, title="x")
        given = list(legend)
        cb = d.change_plot_to_class_mask(cb, convert_zeros_to_nan=nan, cmap=None if cm is None else plt.get_cmap(cm, n + (not nan)),
                                         **({"class_legend": given} if how == "legend" else {"variable": "phase_mask"}))
        rec.trace()
        rec.state(("mask", n, nan, how, cm))
        case = {"classes": n, "nan": nan, "how": how, "cmap": cm, "unit": u}
        mesh = judge(rec, "mask", ax, x_of(snap["time"]), snap["height"], v[0], case)
        names = (["clear"] if not nan else []) + legend
        ticks = [float(t) for t in cb.get_ticks()]
        labels = [t.get_text() for t in (cb.ax.get_yticklabels() or cb.ax.get_xticklabels())]
        first = 0 if not nan else 1
        rec.check(ticks == [float(first + i) for i in range(len(names))], "mask:ticks", lambda: "ticks are %r" % ticks, case)
        rec.check(labels == names, "mask:labels", lambda: "labels are %r, expected %r" % (labels, names), case)
        # every class has a colour of its own, in order
        cols = [tuple(mesh.to_rgba(float(first + i))) for i in range(len(names))] if mesh is not None else []
        rec.check(len(set(cols)) == len(cols), "mask:colours", "two classes share a colour", case)
        if mesh is not None:
            c2 = [tuple(mesh.cmap((i + .5) / len(names))) for i in range(len(names))]
            rec.check(cols == c2, "mask:colours", "the colours of the classes are not the entries of the colormap in order", case)
        rec.check(given == legend and m.ds["phase_mask"].attrs["legend"] == legend, "mask:argument", "the legend was modified", case)
        plt.close("all")
    rec.outcome("mask")


def u_stat(u, rec):
    d = display(model(1, 2, 2))
    vals = (0., 2., -1., np.nan, 1e-3)
    for n in (1, 2, 3, 4):
        for c in itertools.product(vals, repeat=n):
            rec.state(repr(c))
            a = np.array([c, c[::-1]])
            keep = a.copy()
            for geom, axis in itertools.product((False, True), (None, 0, 1, (0, 1))):
                mu, sd = d.calc_mean_and_sd(a, geom, axis=axis)
                rec.trace()
                sets = [a.ravel()] if axis in (None, (0, 1)) else [a[:, i] for i in range(n)] if axis == 0 else [a[0], a[1]]
                for x, y, s in zip(np.ravel(mu), np.ravel(sd), sets):
                    rec.step()
                    w = mean_of(s, geom, False)
                    ok = all((not np.isfinite(p)) if not np.isfinite(q) else abs(p - q) <= 1e-9 * (abs(q) + 1e-6) for p, q in zip((x, y), w))
                    rec.check(ok, "stat:%s" % ("geometric" if geom else "arithmetic"), lambda: "mean and SD of %r are %r, expected %r" % (list(s), (x, y), w), {"values": list(c), "axis": axis})
            rec.check(np.array_equal(a, keep, equal_nan=True), "stat:argument", "the array passed in was modified", {"values": list(c)})
    rec.outcome("stat")


# ---- histories -------------------------------------------------------------------------------------
DRAW = [("plot_subcolumn_timeseries", ("sub_col_Ze_tot",), {"column_no": 1}), ("plot_subcolumn_timeseries", ("phase_mask",), {"pressure_coords": False}),
        ("plot_subcolumn_timeseries", ("sub_col_beta_p_tot",), {"log_plot": True, "Mask_array": "mask"}), ("plot_single_profile", ("sub_col_Vd_tot", "2016-08-16T03:00:00"), {}),
        ("plot_subcolumn_mean_profile", ("sub_col_Ze_tot",), {"use_geom_mean": "auto"}), ("plot_subcolumn_mean_profile", ("sub_col_Ze_tot",), {"pressure_coords": False}),
        ("plot_column_input_q_timeseries", ("strat_q",), {"column_no": 1, "pressure_coords": False}), ("plot_regridded_CF_timeseries", ("CF", "mid", 0), {}),
        ("plot_regridded_SR_timeseries", ("SR", "mid", 0, 1), {}), ("plot_instrument_timeseries", ("inst", "beta"), {}), ("plot_instrument_mean_profile", ("inst", "Ze"), {"pressure_coords": False})]


def u_pairs(u, rec):
    """What a drawing shows does not depend on the drawing made before it (same data, same display)."""
    import matplotlib.pyplot as plt

    def fresh():
        inst = instrument(2, 3, "range")
        e = {"CF": (np.arange(6).reshape(2, 3, 1) % 3 / 3.), "SR": np.arange(12.).reshape(2, 2, 3, 1) % 5, "mid": np.array([.24, .72, 1.2]), "inst": inst, "mask": np.arange(6).reshape(2, 3) % 2 == 0}
        return display(model(2, 2, 3), subplot_shape=(2,)), e

    def draw(d, e, k, i):
        name, a, kw = DRAW[k]
        getattr(d, name)(*[e.get(x, x) if isinstance(x, str) else x for x in a], subplot_index=(i,), title="x", **{x: (e.get(y, y) if isinstance(y, str) else y) for x, y in kw.items()})
        rec.trace()
        return read(d.axes[i])

    d, e = fresh()
    for k in range(len(DRAW)):
        d, e = fresh()
        alone = draw(d, e, k, 1)
        d, e = fresh()
        draw(d, e, u["first"], 0)
        after = draw(d, e, k, 1)
        rec.state((u["first"], k))
        rec.step()
        rec.check(same_picture(alone, after), "history", lambda: "%s%r shows something else after %s%r" % (DRAW[k][0], DRAW[k][1], DRAW[u["first"]][0], DRAW[u["first"]][1]), {"unit": u, "second": k})
        plt.close("all")
    rec.outcome(("pairs", u["first"]))


def read(ax):
    return ([(np.asarray(c.get_coordinates()), np.ma.filled(np.ma.masked_invalid(c.get_array().astype(float)), np.nan)) for c in meshes(ax)],
            [np.array(x.get_xydata()) for x in ax.lines])


def same_picture(a, b):
    eq = lambda p, q: p.shape == q.shape and np.array_equal(p, q, equal_nan=True)
    return len(a[0]) == len(b[0]) and len(a[1]) == len(b[1]) and all(eq(p[0], q[0]) and eq(p[1], q[1]) for p, q in zip(a[0], b[0])) and all(eq(p, q) for p, q in zip(a[1], b[1]))
