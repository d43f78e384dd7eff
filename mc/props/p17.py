"""P17: vertical regridding is the thickness-weighted mean over overlapping layers and conserves the integrated signal."""
import itertools

import numpy as np

from .. import synth  # noqa (sets up the import of emc2)

BOUNDS = {
    "quick": "every pair of an old grid (all increasing sequences of 2-4 layer edges out of {0..6}, non-uniform) and a new grid (contiguous bins, all increasing edge "
             "sequences of 1-4 bins out of {-1..8}), 2 profiles x 2 subcolumns, linear and decibel units with absent values; whole signal chains for 16 model columns",
    "thorough": "old grids up to 5 layers and new grids up to 6 bins over a larger lattice",
}
RULE = "state = one pair of grids; judged bin by bin against exact interval overlap"
ASSUMPTIONS = ["bins that touch the model top up to rounding are not judged", "absent values are judged only in decibel units, where they count as no power", "bins that no model layer overlaps carry no signal"]
UNDEF, GROUND = -1e30, -1e20


def units(tier):
    q = tier == "quick"
    u = []
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for first in range(0, 3):
            u.append({"kind": "grid", "n": n, "first": first, "top": 6 if q else 7, "bins": (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)})
    u += [{"kind": "signals", "dz": d, "conv": c} for d in (0, 1, 2) for c in (0, 1)]
    return u


def run_unit(u, rec):
    (grid if u["kind"] == "grid" else signals)(u, rec)


def overlap(a, b, c, d):
    return max(0., min(b, d) - max(a, c))


def ref(bot, top, y, nb, nt, db):
    """One column: list over bins of the expected value, None where nothing is prescribed to be there, GROUND below the surface."""
    out = []
    for b, t in zip(nb, nt):
        w = [overlap(p, q, b, t) for p, q in zip(bot, top)]
        if 0 < sum(w) < 1e-9 or (t != bot[0] and abs(t - bot[0]) < 1e-9) or (b != top[-1] and abs(b - top[-1]) < 1e-9) or b == top[-1]:
            out.append("tie")                 # the edges coincide up to rounding
            continue
        if t <= bot[0]:
            out.append(GROUND)
            continue
        if sum(w) == 0:
            out.append(None)
            continue
        v = [(0. if x == UNDEF else 10 ** (x / 10)) if db else x for x in y]
        m = sum(p * x for p, x in zip(w, v)) / sum(w)
        out.append((10 * np.log10(m) if m > 0 else UNDEF) if db else m)
    return out


def grid(u, rec):
    from emc2.statistics_LLNL.statistical_aggregation import COSP_CHANGE_VERTICAL_GRID as regrid
    n = u["n"]
    scale = lambda e: np.array([.4 * x + .02 * x * x for x in e])
    olds = [c for c in itertools.combinations(range(u["top"] + 1), n + 1) if c[0] == u["first"]]
    rng = range(-1, u["top"] + 3)
    news = [c for b in u["bins"] for c in itertools.combinations(rng, b + 1)]
    if u["bins"][-1] > 4:
        news = [c for c in news if len(c) <= 5] + [c for c in news if len(c) > 5][::3]
    amp = np.array([3., 7., 11., 2., 5., 13.])[:n]
    for old in olds:
        e = scale(old)
        e2 = scale(old) + .13                      # a second profile in the same call, on other heights
        zhalf = np.array([e[:-1], e2[:-1]])
        zfull = zhalf + np.array([np.diff(e), np.diff(e2)]) / 2.   # the top edge is symmetric about the top level
        y = np.array([[amp, amp[::-1] * 2], [amp * 3, amp + 1]])
        yd = y.copy()
        yd[0, 1, ::2], yd[1, 0, 1::2] = UNDEF, UNDEF
        if n > 1:
            yd[1, 1, :] = UNDEF
        for new in news:
            f = np.array([.4 * x + .02 * x * abs(x) for x in new])
            if (len(new) + sum(new)) % 2:
                f = f + .17
            nb, nt = f[:-1], f[1:]
            rec.state((old, new))
            for db, yy in ((False, y), (True, yd)):
                y0, zf0, zh0 = yy.copy(), zfull.copy(), zhalf.copy()
                r = regrid(2, 2, n, zf0, zh0, y0, len(nb), nb.copy(), nt.copy(), lunits=db)
                rec.trace()
                rec.check(np.array_equal(y0, yy) and np.array_equal(zh0, zhalf) and np.array_equal(zf0, zfull), "inputs changed", "regridding changed its inputs",
                          {"old": old, "new": new})
                for i, ee in enumerate((e, e2)):
                    for j in (0, 1):
                        w = ref(ee[:-1], ee[1:], yy[i, j], nb, nt, db)
                        for k, x in enumerate(w):
                            g = float(r[i, j, k])
                            rec.step()
                            if x == "tie":
                                continue
                            if x is None:
                                ok = g == (UNDEF if db else 0.)
                            else:
                                ok = abs(g - x) <= 1e-9 * max(1., abs(x))
                            rec.outcome((db, "none" if x is None else "ground" if x == GROUND else "undef" if x == UNDEF else "value", k, n))
                            if not ok:
                                rec.violation("%s:%s" % ("decibel" if db else "linear", "ground" if x == GROUND else "empty" if x is None else "mean"),
                                              "bin %d [%.3g, %.3g] is %r instead of %r" % (k, nb[k], nt[k], g, x),
                                              {"old_edges": ee.tolist(), "values": yy[i, j].tolist(), "new_bot": nb.tolist(), "new_top": nt.tolist()})
    rec.sample({"layers": n, "old_grids": len(olds), "new_grids": len(news)})


def signals(u, rec):
    """get_radar_lidar_signals -> calculate_SR / get_regridded_ze_att_tot over a model with (time, lev, ncol) output."""
    import types
    import xarray as xr
    from emc2.statistics_LLNL import statistical_aggregation as sa
    N, T, H, C = 3, 2, 4, 8
    z = np.array([[300., 900., 1700., 2900.], [300., 700., 1500., 1900.], [250., 750., 1250., 1750.]][u["dz"]])
    z = z[None, :, None] * (1 + .05 * np.arange(C)[None, None, :]) + np.array([0., 30.])[:, None, None]
    pats = list(itertools.product((0, 1), repeat=H))[u["conv"] * 8:u["conv"] * 8 + 8]
    P = np.array(pats).T[None, None]                                   # 1,1,H,C
    i = np.arange(N * T * H * C).reshape(N, T, H, C)
    on = np.broadcast_to(P, i.shape) * ((np.arange(N)[:, None, None, None] + np.arange(T)[None, :, None, None]) % 3 != 2)
    ze = np.where(on, -30. + 40 * ((i * 37) % 101) / 101., np.nan)
    sig = 1.5e-6 * np.exp(-z / 8e3)
    tau = np.exp(-z / 3e4)
    atb = sig[None] * tau[None] * (1 + on * (1 + (i * 13) % 29))
    d4, d3 = ("subcolumn", "time", "lev", "ncol"), ("time", "lev", "ncol")
    ds = xr.Dataset({"sub_col_beta_att_tot": (d4, atb), "sub_col_Ze_att_tot": (d4, ze), "sigma_180_vol": (d3, sig), "tau": (d3, tau), "Z3": (d3, z)},
                    coords={"subcolumn": np.arange(N), "time": np.arange(T), "ncol": np.arange(C), "lev": np.arange(H)})
    m = types.SimpleNamespace(ds=ds)
    a4, b4, zf, zh, z4 = sa.get_radar_lidar_signals(m)
    rec.trace()

    def need(key, got, want, tol=1e-9):
        ok = np.isclose(got, want, rtol=tol, atol=0, equal_nan=True)
        rec.step(np.size(got))
        rec.outcome((key, u["dz"], bool(ok.all())))
        if not ok.all():
            j = tuple(map(int, np.argwhere(~ok)[0]))
            rec.violation("signals:" + key, "%s%s is %r instead of %r" % (key, list(j), float(got[j]), float(np.broadcast_to(want, got.shape)[j])),
                          dict(u, pattern=pats[j[-1]]))
    need("attenuated backscatter", a4, atb)
    need("molecular backscatter", b4, np.broadcast_to((sig * tau)[None], atb.shape))
    need("reflectivity", z4, ze)
    need("height", zf, z / 1e3)
    mid = (z[:, 1:] + z[:, :-1]) / 2e3
    need("layer bottom", zh[:, 1:], mid)
    rec.check(bool((zh[:, 0] <= z[:, 0] / 1e3 + 1e-12).all()), "signals:lowest layer bottom", "the bottom of the lowest layer lies above its middle", u)
    for p in pats:
        rec.state((u["dz"], p))
    edges = np.array([0., .24, .5, .75, 1.2, 1.35, 1.9, 2.6])
    for eds in (edges, edges + .1, np.arange(0., 2.6, .48)):
        nb, nt = eds[:-1], eds[1:]
        G = len(nb)
        sr = sa.calculate_SR(a4, b4, N, T, zf, zh, N, T, H, G, C, nb, nt)
        zr = sa.get_regridded_ze_att_tot(z4, zf, zh, N, T, G, C, nb, nt, N, T, H)
        rec.trace(2)
        wsr, wz = np.full((N, T, G, C), np.nan), np.full((N, T, G, C), np.nan)
        for n, t, c in np.ndindex(N, T, C):
            bot = zh[t, :, c]
            top = np.append(bot[1:], 2 * zf[t, -1, c] - bot[-1])
            ra, rb = (ref(bot, top, x[n, t, :, c], nb, nt, False) for x in (a4, b4))
            rz = ref(bot, top, np.where(np.isnan(z4[n, t, :, c]), UNDEF, z4[n, t, :, c]), nb, nt, True)
            for k in range(G):
                if "tie" in (ra[k], rz[k]):
                    wsr[n, t, k, c], wz[n, t, k, c] = sr[n, t, k, c], zr[n, t, k, c]
                    continue
                if ra[k] not in (None, GROUND):
                    wsr[n, t, k, c] = ra[k] / rb[k]
                if rz[k] not in (None, GROUND, UNDEF):
                    wz[n, t, k, c] = rz[k]
        need("scattering ratio", sr, wsr)
        need("regridded reflectivity", zr, wz)
    rec.sample(dict(u, columns=C))
