"""P15: stacking, unstacking, dimension ordering, cropping and de-appending keep every value at its own coordinates."""
import itertools

import numpy as np
import xarray as xr

from .. import chain, env, scene, synth
from ..scene import canon

BOUNDS = {
    "quick": "stacking: all sizes time {absent,1,2,3} x lat {absent,1,2,3} x lon {absent,1,2,3}, all 24 dimension orders, fields over every subset of the dimensions, subcolumns "
             "{absent,1,3}, both order and squeeze options, numeric and datetime time axes; whole simulations on 7 regions; time crop: all half-open ranges over 5 instants; "
             "bounding boxes: all boxes over 4 x 3 points; appended strings: 1-3 sub-domains of sizes 1-2, all orders",
    "thorough": "as quick with sizes up to 4 and subcolumns up to 4",
}
RULE = "state = one dataset layout; each cell of each field is tagged with its coordinates and looked up after every operation"
ASSUMPTIONS = ["longitude is present only if latitude is"]
HT = "lev"


def units(tier):
    S = (None, 1, 2, 3) if tier == "quick" else (None, 1, 2, 3, 4)
    u = [{"kind": "stack", "t": t, "lat": a, "lon": o, "n": n} for t in S for a in S for o in (S if a else (None,)) for n in ((None, 1, 3) if tier == "quick" else (None, 1, 2, 4))]
    u += [{"kind": "sim", "t": t, "lat": a, "lon": o, "inst": i} for t, a, o in ((2, 2, 2), (1, 2, 3), (3, 2, None), (2, 1, 3), (2, 3, 1), (1, 1, 1), (2, 1, 1)) for i in ("radar", "lidar")]
    u += [{"kind": "crop"}, {"kind": "box"}, {"kind": "append"}]
    return u


def run_unit(u, rec):
    {"stack": stack, "sim": sim, "crop": crop, "box": box, "append": append}[u["kind"]](u, rec)


LATS, LONS, TIMES, LEVS = np.array([60., 61.5, 64., 70.]), np.array([-150., -149., -140., 12.]), np.array([3., 5., 9., 20.]), np.array([900., 700.])


def tag(coords):
    """Value identifying a cell from its coordinates (dict name -> value)."""
    w = {"time": 1e6, "lat": 1e3, "lon": 1., HT: 1e-3, "subcolumn": 1e8}
    return sum(w[k] * (1 + {"time": TIMES, "lat": LATS, "lon": LONS, HT: LEVS, "subcolumn": np.arange(9.)}[k].tolist().index(float(v))) for k, v in coords.items())


def field(dims, axes):
    a = np.zeros([len(axes[d]) for d in dims])
    for j in np.ndindex(*a.shape):
        a[j] = tag({d: axes[d][i] for d, i in zip(dims, j)})
    return xr.DataArray(a, dims=dims, attrs={"units": "1", "tag": "-".join(dims)})


def make(u, order, dt):
    import emc2
    axes = {HT: LEVS}
    if u["t"]:
        axes["time"] = TIMES[:u["t"]]
    if u["lat"]:
        axes["lat"] = LATS[:u["lat"]]
    if u["lon"]:
        axes["lon"] = LONS[:u["lon"]]
    names = [d for d in order if d in axes]
    ds = xr.Dataset(coords={k: v for k, v in axes.items()})
    subs = []
    for r in range(0, len(names) + 1):
        for c in itertools.combinations(names, r):
            if "lat" in axes and "lon" in axes and ("lat" in c) != ("lon" in c):
                continue
            subs.append(c)
            ds["v_" + "_".join(c)] = field(c, axes)
    if dt and u["t"]:
        ds = ds.assign_coords(time=np.datetime64("2020-01-01") + axes["time"].astype("timedelta64[h]"))
    m = emc2.core.Model()
    m.ds, m.height_dim, m.time_dim = ds, HT, "time"
    m.T_field = "v_" + "_".join(names)
    return m, axes, subs


def back(v, d):
    """Coordinate value -> the plain number used for tagging."""
    v = np.asarray(v)
    if d == "time" and np.issubdtype(v.dtype, np.datetime64):
        return float((v - np.datetime64("2020-01-01")) / np.timedelta64(1, "h"))
    return float(v)


def cells_ok(da, dims, axes, extra=()):
    """Every cell of da carries the tag of its coordinates (dims = the dimensions the field had originally)."""
    for j in np.ndindex(*da.shape):
        c = da[j]
        co = {}
        for d in dims:
            if d in c.coords and np.size(c.coords[d]) == 1:
                co[d] = back(c.coords[d].values, d)
            elif d in axes and len(axes[d]) == 1:
                co[d] = axes[d][0]
            else:
                return "no coordinate %s" % d
        if float(c) != tag(co):
            return "value %r at %r" % (float(c), co)
    return None


def stack(u, rec):
    orders = list(itertools.permutations(["time", HT, "lat", "lon"])) if u["n"] in (None, 3) and u["lat"] and u["lon"] and u["t"] else \
        [("time", HT, "lat", "lon"), (HT, "lat", "lon", "time"), ("lon", "lat", HT, "time"), ("lat", "time", "lon", HT)]
    region = bool(u["lat"] and (u["lat"] > 1 or (u["lon"] or 1) > 1))
    for io, order in enumerate(orders):
        for dt, squeeze, ordered in ((False, True, True), (True, False, True), (False, False, False)):
            m, axes, subs = make(u, order, dt)
            case = dict(u, order=order, datetime=dt, squeeze=squeeze, order_dim=ordered)
            rec.state((repr(u), order, dt, squeeze, ordered))
            m.check_and_stack_time_lat_lon(order_dim=ordered)
            rec.trace()
            ax2 = dict(axes)
            if "time" not in ax2:
                ax2["time"] = TIMES[:1]
            td = m.time_dim
            rec.check((td != "time") == region, "stack:decision", "stacked dimension is %r" % td, case)
            ncol = 1
            for d in ("time", "lat", "lon"):
                ncol *= len(axes.get(d, [0]))
            rec.check(m.ds.sizes[td] == ncol, "stack:columns", "%d columns instead of %d" % (m.ds.sizes[td], ncol), case)
            rec.check("lat" not in m.ds.dims and "lon" not in m.ds.dims, "stack:dims", "dimensions %r left" % (tuple(m.ds.dims),), case)
            for c in subs:
                nm = "v_" + "_".join(c)
                e = cells_ok(m.ds[nm], c, axes)
                rec.step(m.ds[nm].size)
                rec.check(e is None, "stack:values", lambda: "after stacking %s: %s" % (nm, e), case)
                if ordered and HT in m.ds[nm].dims and td in m.ds[nm].dims:
                    rec.check(m.ds[nm].dims == (td, HT), "stack:order", lambda: "dimensions of %s are %r" % (nm, m.ds[nm].dims), case)
            if not region:
                try:
                    m.unstack_time_lat_lon()
                    rec.violation("unstack:unstacked", "unstacking a dataset that was not stacked is accepted", case)
                except TypeError:
                    pass
                continue
            idx = [tuple(back(m.ds[td][i][d].values, d) for d in ("lat", "lon", "time") if d in axes) for i in range(ncol)]
            rec.check(len(set(idx)) == ncol, "stack:index", "column coordinates repeat", case)
            if u["n"]:
                m.ds["subcolumn"] = ("subcolumn", np.arange(u["n"]))
                full = [d for d in ("subcolumn", "lat", "lon", "time", HT) if d in axes or d == "subcolumn"]
                a = np.zeros((u["n"], ncol, len(LEVS)))
                b = np.zeros((u["n"], len(LEVS), ncol))
                for i, k, h in np.ndindex(*a.shape):
                    co = dict(zip([d for d in ("lat", "lon", "time") if d in axes], idx[k]))
                    co["subcolumn"], co[HT] = i, LEVS[h]
                    a[i, k, h] = b[i, h, k] = tag(co)
                m.ds["sub_col_a"] = (("subcolumn", td, HT), a)
                m.ds["sub_col_b"] = (("subcolumn", HT, td), b)
            m.unstack_time_lat_lon(order_dim=ordered, squeeze_single_dims=squeeze)
            rec.trace()
            rec.check(m.time_dim == "time" and m.stacked_time_dim is None, "unstack:state", "time dimension is %r after unstacking" % m.time_dim, case)
            for d in ("lat", "lon", "time"):
                if d in axes and d in m.ds.dims:
                    got = [back(v, d) for v in m.ds[d].values]
                    rec.check(got == list(axes[d]), "unstack:coords", lambda: "%s is %r" % (d, got), case)
            gone = [d for d in ("time", "subcolumn") if squeeze and d in m.ds.dims and m.ds.sizes[d] == 1]
            rec.check(not gone, "unstack:squeeze", "dimensions %r of length 1 were not squeezed" % (gone,), case)
            for c in subs:
                nm = "v_" + "_".join(c)
                e = cells_ok(m.ds[nm], c, axes)
                rec.step(m.ds[nm].size)
                rec.check(e is None, "unstack:values", lambda: "after unstacking %s: %s" % (nm, e), case)
                rec.check(m.ds[nm].attrs.get("tag") == "-".join(c), "unstack:attrs", "attributes of %s lost" % nm, case)
                miss = [d for d in c if d not in m.ds[nm].dims and len(axes[d]) > 1]
                rec.check(not miss, "unstack:dims", lambda: "%s lost %r" % (nm, miss), case)
            if u["n"]:
                for nm in ("sub_col_a", "sub_col_b"):
                    e = cells_ok(m.ds[nm], full, dict(axes, subcolumn=np.arange(u["n"])))
                    rec.step(m.ds[nm].size)
                    rec.check(e is None, "unstack:subcolumns", lambda: "after unstacking %s: %s" % (nm, e), case)
            rec.outcome((u["t"], u["lat"], u["lon"], u["n"], ordered, squeeze))
    rec.sample(dict(u, orders=len(orders)))


def region_model(u):
    """A closed model over (time, lat, lon, height), stacked by the real code."""
    n = (u["t"] or 1) * (u["lat"] or 1) * (u["lon"] or 1)
    H = 5
    rng = np.arange(n)
    fr = {h: np.where((rng[:, None] + np.arange(H)[None] * (2 + k)) % 3 == 0, (1 + (rng[:, None] + k) % 3) / 3., 0.) for k, h in enumerate(synth.HYD)}
    for h in fr:
        fr[h][:, -1] = 0
    q = {h: scene.QREF[h] * (1 + .3 * rng[:, None] + .1 * np.arange(H)) * (fr[h] > 0) for h in synth.HYD}
    NN = {h: scene.NREF[h] * (1 + .2 * rng[:, None] + .1 * np.arange(H)) * (fr[h] > 0) for h in synth.HYD}
    re = {h: {"cl": 8., "pl": 120., "ci": 35., "pi": 150.}[h] for h in synth.HYD}
    z = 400. + 1200. * np.arange(H)[None] + 10. * rng[:, None]
    m = synth.make_model(n, H, strat_frac=fr, q_strat=q, N=NN, re=re, process_conv=False, z=z, t=288. - 6e-3 * z)
    dims = [d for d in ("lat", "lon", "time") if u[d[0] if d == "time" else d]]
    sizes = [u["t" if d == "time" else d] for d in dims]
    out = xr.Dataset(coords={d: {"lat": LATS, "lon": LONS, "time": TIMES}[d][:s] for d, s in zip(dims, sizes)})
    for k in m.ds.data_vars:
        v = m.ds[k]
        out[k] = xr.DataArray(v.values.reshape(*sizes, H), dims=(*dims, "height"), attrs=v.attrs).transpose(*[d for d in ("time", "height", "lat", "lon") if d in dims or d == "height"])
    m.ds = out
    return m, dims, sizes


def sim(u, rec):
    res = []
    for unstack in (False, True):
        m, dims, sizes = region_model(u)
        m.check_and_stack_time_lat_lon()
        td = m.time_dim
        stacked = m.stacked_time_dim is not None
        cols = [tuple(float(m.ds[td][i][d].values) for d in dims) for i in range(m.ds.sizes[td])] if stacked else None
        for logic in ("micro", "rad"):
            chain.simulate(m, u["inst"], logic, 3, do_classify=False, unstack_dims=unstack and logic == "rad")
            rec.trace()
        res.append((m, cols))
    (a, cols), (b, _) = res
    rec.state(repr(u))
    names = [k for k in a.ds.data_vars if a.time_dim in a.ds[k].dims]
    rec.check(sorted(map(str, a.ds.data_vars)) == sorted(map(str, b.ds.data_vars)), "sim:fields", "unstacking changes the set of fields", u)
    n = 0
    for k in names:
        da, db = a.ds[k], b.ds[k]
        if not stacked:
            ok = np.array_equal(canon(a, da), canon(b, db), equal_nan=True)
            rec.check(ok, "sim:values", "%s differs with unstack_dims" % k, u)
            n += 1
            continue
        for i, c in enumerate(cols):
            x = da.isel({a.time_dim: i}).transpose(*[d for d in ("subcolumn", "height") if d in da.dims]).values
            sel = {d: v for d, v in zip(dims, c) if d in db.dims}
            y = db.sel(sel).transpose(*[d for d in ("subcolumn", "height") if d in da.dims]).values
            n += 1
            rec.step(x.size)
            if not np.array_equal(x, y, equal_nan=True):
                rec.violation("sim:values", "%s of the column at %r is not the one simulated there" % (k, c), u)
                break
    rec.outcome((repr(u), len(names), n))
    rec.note("fields compared", len(names))
    rec.sample(dict(u, fields=len(names)))


def crop(u, rec):
    import emc2
    t0 = np.datetime64("2020-03-01T00:00")
    tt = t0 + np.array([0, 3, 6, 9, 12]) * np.timedelta64(1, "h")
    cand = t0 + np.arange(-2, 16) * np.timedelta64(1, "h")
    for alt in (False, True):
        for a, b in itertools.combinations(cand, 2):
            m = emc2.core.Model()
            dim = "ncol" if alt else "time"
            ds = xr.Dataset({"v": ((dim, "lev"), np.arange(10.).reshape(5, 2)), "w": (("lev", dim), np.arange(10.).reshape(2, 5)), "s": ("lev", [1., 2.])},
                            coords={"time": (dim, tt)})
            m.ds, m.time_dim = ds, dim
            m._crop_time_range(np.array([a, b]), **({"alter_coord": "time"} if alt else {}))
            keep = [i for i in range(5) if a <= tt[i] < b] or list(range(5))
            rec.trace()
            rec.step()
            rec.state(("crop", alt, str(a), str(b)))
            rec.outcome(("crop", tuple(keep)))
            ok = np.array_equal(m.ds["v"].values, ds["v"].values[keep]) and np.array_equal(m.ds["w"].values, ds["w"].values[:, keep]) and \
                np.array_equal(m.ds["time"].values, tt[keep]) and m.ds["s"].values.tolist() == [1., 2.]
            rec.check(ok, "crop", lambda: "times %r kept instead of %r" % (m.ds["time"].values.tolist(), keep), {"range": [str(a), str(b)], "alter_coord": alt})
    rec.sample({"ranges": len(list(itertools.combinations(cand, 2)))})


def box(u, rec):
    import emc2
    la, lo = np.array([60., 61., 62.5, 63.]), np.array([-150., -149., -147.])
    T = 2
    A = np.arange(T * 4 * 3.).reshape(T, 4, 3)

    def mk(xy):
        m = emc2.core.Model()
        if xy:
            m.ds = xr.Dataset({"v": (("time", "y", "x"), A)}, coords={"y": la, "x": lo})
        else:
            m.ds = xr.Dataset({"v": (("time", "sn", "we"), A), "XLAT": (("time", "sn", "we"), np.broadcast_to(la[None, :, None], A.shape).copy()),
                               "XLONG": (("time", "sn", "we"), np.broadcast_to(lo[None, None, :], A.shape).copy())})
            m.lat_dim, m.lon_dim, m.lat_name, m.lon_name = "sn", "we", "XLAT", "XLONG"
        return m
    for i0, i1 in itertools.combinations_with_replacement(range(4), 2):
        for j0, j1 in itertools.combinations_with_replacement(range(3), 2):
            for eps in (0., .1):
                for xy in (False, True):
                    m = mk(xy)
                    bb = (la[i0] - eps, lo[j0] - eps, la[i1] + eps, lo[j1] + eps)
                    if xy:
                        m._crop_bounding_box_x_y((bb[1], bb[0], bb[3], bb[2]))
                    else:
                        m._crop_bounding_box(bb)
                    rec.trace()
                    rec.step()
                    rec.state(("box", xy, bb))
                    want = A[:, i0:i1 + 1, j0:j1 + 1]
                    got = m.ds["v"].values
                    rec.outcome(("box", want.shape))
                    rec.check(np.array_equal(got, want), "box:%s" % ("xy" if xy else "latlon"),
                              lambda: "a box around rows %d-%d, columns %d-%d keeps a %r region" % (i0, i1, j0, j1, got.shape[1:]), {"box": bb, "xy": xy})
    rec.sample({"boxes": "all"})


def append(u, rec):
    import emc2
    apps = ["_204e_to_206e_70n_to_72n", "_0e_to_2e_10n_to_12n", "_100e_to_102e_5n_to_7n"]
    for nd in (1, 2, 3):
        for sizes in itertools.product((1, 2), repeat=nd):
            for perm in itertools.permutations(range(nd)):
                m = emc2.core.Model()
                ds = xr.Dataset()
                base = 0
                tagv, ids = {}, {}
                for k in range(nd):
                    tagv[k] = np.arange(base, base + sizes[k]) * 1.
                    base += sizes[k]
                for k in perm:
                    d = "ncol" + apps[k]
                    ds["T" + apps[k]] = (("time", "lev", d), tagv[k][None, None] + np.arange(2.)[:, None, None] * 100 + np.arange(3.)[None, :, None] * 10)
                    ds["lat" + apps[k]] = ((d,), tagv[k])
                    ds["PS" + apps[k]] = (("time", d), tagv[k][None] + np.arange(2.)[:, None] * 100)
                ds["hyam"] = ("lev", [1., 2., 3.])
                ds["time"] = ("time", [0., 1.])
                m.ds, m.lat_dim, m.lon_dim = ds, "ncol", "lon"
                m.remove_appended_str(True)
                rec.trace()
                rec.step(base)
                rec.state(("append", sizes, perm))
                case = {"sub_domains": sizes, "order": perm}
                rec.outcome((sizes, perm))
                if not rec.check(set(m.ds.data_vars) == {"T", "lat", "PS", "hyam"}, "append:names", lambda: "fields %r" % sorted(map(str, m.ds.data_vars)), case):
                    continue
                lat = m.ds["lat"].values
                rec.check(sorted(lat.tolist()) == [float(x) for x in range(base)], "append:columns", lambda: "columns %r" % lat.tolist(), case)
                ok = np.array_equal(m.ds["T"].transpose("time", "lev", "ncol").values, lat[None, None] + np.arange(2.)[:, None, None] * 100 + np.arange(3.)[None, :, None] * 10) and \
                    np.array_equal(m.ds["PS"].transpose("time", "ncol").values, lat[None] + np.arange(2.)[:, None] * 100) and m.ds["hyam"].values.tolist() == [1., 2., 3.]
                rec.check(ok, "append:values", "values of the fields do not belong to the same columns", case)
    for nlat, nlon in itertools.product((1, 2), (1, 2)):
        la, lo = "lat_60n_to_72n", "lon_204e_to_206e"
        for order in itertools.permutations(("time", "lev", la, lo)):
            m = emc2.core.Model()
            sz = {"time": 2, "lev": 3, la: nlat, lo: nlon}
            a = np.arange(2. * 3 * nlat * nlon).reshape([sz[d] for d in order])
            m.ds = xr.Dataset({"T_204e_to_206e_60n_to_72n": (order, a), "hyam": ("lev", [1., 2., 3.])}, coords={la: LATS[:nlat], lo: LONS[:nlon]})
            m.remove_appended_str(False)
            rec.trace()
            rec.state(("append2", nlat, nlon, order))
            ok = set(m.ds.dims) == {"time", "lev", "lat", "lon"} and "T" in m.ds and np.array_equal(
                m.ds["T"].transpose(*[d.split("_")[0] for d in order]).values, a) and m.ds["lat"].values.tolist() == LATS[:nlat].tolist()
            rec.check(ok, "append:rename", lambda: "dataset after removal: %r" % (dict(m.ds.sizes),), {"order": order, "lat": nlat, "lon": nlon})
    rec.sample({"append": "all"})
