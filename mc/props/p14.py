"""P14: the COSP-like lidar phase masks and the phase ratios follow from the simulated signals by their definition."""
import itertools
import math

import numpy as np

from .. import chain, scene, synth
from ..scene import canon

BOUNDS = {
    "quick": "COSP: all profiles over 3 adjacent levels of 8 cell contents (512 columns) x 3 temperature profiles, both directions, eta in {1, 0.7}, 3 class subsets and 3 class sets with graupel, hail, snow or rimed ice, "
             "precipitation included or not, 2 sets of thresholds and 2 of coefficients, both cloud types; phase ratios: all 5^4 (float: with NaN) mask contents of 4 "
             "subcolumns x 9 numerators x 4 denominators; mass ratios: all presence combinations x masks, 4 class subsets and 3 further class sets",
    "thorough": "COSP on 4 adjacent levels (4096 columns); phase ratios over 5 subcolumns",
}
RULE = "state = one profile of cell contents or one content of a mask cell; judged in every cell"
ASSUMPTIONS = ["an exact tie between a signal and a threshold is not judged",
               "the attenuated signals of the emulator are computed by an independent scalar re-implementation of the documented formula"]
HYD = synth.HYD
DEP = 0.0284
CURVE = [9.032e3, -2.136e3, 173.394, -3.951, 0.256, -9.478e-4]
COEF = {'liq': [0.4099, 0.009, 0], 'ice': [0.2904, 0]}
# cell contents: (cl, ci, pl, pi) stratiform and convective backscatter [1/m/sr]; layer OD
CELLS = [((0, 0, 0, 0), (0, 0, 0, 0)), ((3e-5, 0, 0, 0), (0, 0, 0, 0)), ((0, 3e-5, 0, 0), (0, 0, 0, 0)), ((0, 0, 1e-5, 8e-6), (0, 0, 0, 0)),
         ((4e-4, 0, 0, 0), (0, 0, 0, 0)), ((0, 2e-6, 0, 0), (0, 0, 0, 2e-4)), ((2e-6, 2e-6, 2e-6, 2e-6), (3e-5, 0, 0, 0)), ((0, 0, 0, 1.5e-6), (1e-6, 2e-4, 1e-6, 0))]


def units(tier):
    L = 3 if tier == "quick" else 4
    u = []
    for sfc, eta, conv in itertools.product((True, False), (1., .7), (True, False)):
        for sub in (None, ["pi", "cl"], ["cl", "ci", "pl", "pi"]):
            for prec in (True, False):
                u.append({"kind": "cosp", "sfc": sfc, "eta": eta, "conv": conv, "sub": sub, "prec": prec, "L": L})
    for hyd in (("cl", "ci", "pl", "gr"), ("cl", "ci", "pl", "pir"), ("cl", "sn", "pl", "ha")):
        for conv, prec in itertools.product((True, False), (True, False)):
            u.append({"kind": "cosp", "sfc": True, "eta": .7, "conv": conv, "sub": None, "prec": prec, "L": L, "hyd": hyd})
        u.append({"kind": "cosp", "sfc": False, "eta": 1., "conv": True, "sub": [hyd[3], "cl"], "prec": True, "L": L, "hyd": hyd})
        u += [{"kind": "mpr", "conv": c, "sub": s, "hyd": hyd} for c in (True, False) for s in (None, ["pl", hyd[3]])]
    u += [{"kind": "fpr", "n": 4 if tier == "quick" else 5, "float": f} for f in (False, True)]
    u += [{"kind": "mpr", "conv": c, "sub": s} for c in (True, False) for s in (None, ["cl", "ci"], ["pi", "cl"], ["ci", "pi"])]
    return u


def run_unit(u, rec):
    {"cosp": cosp, "fpr": fpr, "mpr": mpr}[u["kind"]](u, rec)


def poly(c, x):
    y = 0.
    for a in c:
        y = y * x + a
    return y


def signals(beta, od, sig, tau, eta, coef):
    """beta, od: {"liq"/"ice": summed over classes (N,T,H)}; returns total and cross attenuated backscatter."""
    crs = {}
    for k in ("liq", "ice"):
        tr = np.exp(-2 * eta * od[k]) * tau
        crs[k] = poly(coef[k], (sig + beta[k]) * tr * 1e3) / 1e3 / tr - sig * DEP / (1 + DEP)
    return crs


def cosp(u, rec):
    from emc2.simulator.classification import lidar_emulate_cosp_phase
    L = u["L"]
    hyd = u.get("hyd", HYD)
    pats = list(itertools.product(range(len(CELLS)), repeat=L))
    N, H = len(pats), L + 3
    temps = [[278., 274., 272., 270., 262., 250.], [273.2, 272., 240., 234., 233., 220.], [299., 285., 273.1, 273.0, 233.2, 233.1]]
    T = len(temps)
    tt = np.array([t + [210.] * (H - 6) for t in temps])[:, :H]
    P = np.zeros((N, T, H), int)
    for t in range(T):
        P[:, t, 1:1 + L] = np.array(pats)
    A = np.array(CELLS)
    names = ("strat", "conv") if u["conv"] else ("strat",)
    m = scene.scene(T, H, N, {}, conv_masks={} if u["conv"] else None, hyd=tuple(hyd), key="p14", t=tt)
    sig = (1.5e-6 * np.exp(-np.arange(H) / 6.))[None, :] * np.array([1., .95, 1.05])[:, None]
    odm = np.cumsum(sig * 3000., axis=1) if u["sfc"] else np.flip(np.cumsum(np.flip(sig * 3000., 1), axis=1), 1)
    tau = np.exp(-2 * odm)
    m.ds["sigma_180_vol"] = (m.ds[m.T_field].dims, sig)
    m.ds["tau"] = (m.ds[m.T_field].dims, tau)
    beta, od = {}, {}
    for c, nm in enumerate(("strat", "conv")):
        if nm == "conv" and not u["conv"]:
            continue
        tot = 0.
        for i, h in enumerate(hyd):
            b = A[P, c, i]
            o = np.where(b > 0, b * (3e3 + 500 * i), 0.)
            o = np.cumsum(o, axis=2) if u["sfc"] else np.flip(np.cumsum(np.flip(o, 2), axis=2), 2)
            beta[nm, h], od[nm, h] = b, o
            tot = tot + b
            scene.put(m, "sub_col_beta_p_%s_%s" % (h, nm), np.where(b > 0, b, np.nan) if i == 1 else b)
            scene.put(m, "sub_col_OD_%s_%s" % (h, nm), np.where(o > 0, o, np.nan) if i == 2 else o)
        scene.put(m, "sub_col_beta_p_tot_%s" % nm, tot)
    use = [h for h in (u["sub"] or hyd)]
    cls = {"liq": [h for h in (("cl", "pl") if u["prec"] else ("cl",)) if h in use],
           "ice": [h for h in hyd if h[-1] != "l" and h in use and (u["prec"] or h == "ci")]}
    z = np.zeros((N, T, H))
    for p in pats:
        rec.state((u["sfc"], u["eta"], u["conv"], u["prec"], repr(u["sub"]), p))
    opts = [dict(), dict(cloud_SR_thresh=2., undef_SR_thresh=12.), dict(phase_disc_curve=[0.4, 1e-5]), dict(atb_cross_coeff={'liq': [0.05, 0.], 'ice': [0.35, 0.]})]
    ins = chain.inst("lidar")
    for io, (o, tonan) in enumerate(itertools.product(opts, (False, True))):
        out = lidar_emulate_cosp_phase(ins, m, eta=u["eta"], OD_from_sfc=u["sfc"], inc_precip_hyd_atb=u["prec"], convert_zeros_to_nan=tonan,
                                       output_ATB=True, hyd_types=u["sub"], **o)
        rec.trace()
        coef, curve = o.get("atb_cross_coeff", COEF), o.get("phase_disc_curve", CURVE)
        sr0, sr1 = o.get("cloud_SR_thresh", 5.), o.get("undef_SR_thresh", 30.)
        B, X, O = z, z, z
        per = []
        for nm in names:
            b = {k: sum([beta[nm, h] for h in cls[k]], z) for k in cls}
            d = {k: sum([od[nm, h] for h in cls[k]], z) for k in cls}
            x = signals(b, d, sig, tau, u["eta"], coef)
            B, X, O = B + b["liq"] + b["ice"], X + x["liq"] + x["ice"], O + d["liq"] + d["ice"]
            per.append((nm, b["liq"] + b["ice"], x["liq"] + x["ice"], d["liq"] + d["ice"]))
        for nm, b, x, d in per + [("all_hyd", B, X, O)]:
            tr = np.exp(-2 * u["eta"] * d) * tau
            want = {"COSP_ATBtot_" + nm: (b + x + sig * (1 + DEP)) * tr, "COSP_ATBcross_" + nm: (x + sig * DEP / (1 + DEP)) * tr}
            want["COSP_SR_" + nm] = want["COSP_ATBtot_" + nm] / (sig * (1 + DEP) * tau)
            for f, w in want.items():
                g = canon(out, out.ds[f])
                ok = np.isclose(g, w, rtol=1e-9, atol=1e-30)
                if not ok.all():
                    j = tuple(map(int, np.argwhere(~ok)[0]))
                    rec.violation("cosp:" + f.split("_")[1], "%s is %r instead of %r" % (f, float(g[j]), float(w[j])),
                                  dict(u, option=repr(o), profile=pats[j[0]], level=j[2], time=j[1]))
            sr, tot, crs = (want[k + nm] for k in ("COSP_SR_", "COSP_ATBtot_", "COSP_ATBcross_"))
            curv = poly(curve, tot * 1e3) / 1e3
            judged = (abs(sr / sr0 - 1) > 1e-9) & (abs(sr / sr1 - 1) > 1e-9).all(axis=2, keepdims=True) & (abs(crs / curv - 1) > 1e-9)
            w = np.zeros((N, T, H))
            for j in np.ndindex(N, T, H):
                if sr[j] > sr0:
                    c = 2 if crs[j] > curv[j] else 1
                    if tt[j[1:]] > 273.15:
                        c = 1
                    elif tt[j[1:]] < 233.15:
                        c = 2
                    nearer = sr[j[0], j[1], :j[2]] if u["sfc"] else sr[j[0], j[1], j[2] + 1:]
                    if (nearer > sr1).any():
                        c = 3
                    w[j] = c
            f = "COSP_phase_mask_all_hyd" if nm == "all_hyd" else nm + "_COSP_phase_mask"
            g = canon(out, out.ds[f]).astype(float)
            if tonan:
                w = np.where(w == 0, np.nan, w)
            ok = (g == w) | (np.isnan(g) & np.isnan(w)) | ~judged
            rec.step(g.size)
            for v in np.unique(g[np.isfinite(g)]):
                rec.note("class %d" % v, int((g == v).sum()))
                rec.outcome((nm, io, v, u["sfc"], u["conv"]))
            if not ok.all():
                j = tuple(map(int, np.argwhere(~ok)[0]))
                rec.violation("cosp:mask", "%s is %r instead of %r" % (f, float(g[j]), float(w[j])),
                              dict(u, option=repr(o), nan=tonan, profile=pats[j[0]], level=j[2], SR=float(sr[j]), T=float(tt[j[1:]])))
    rec.sample(dict(u, columns=N))


def fpr(u, rec):
    from emc2.simulator.classification import calculate_phase_ratio
    n = u["n"]
    pats = list(itertools.product(range(5), repeat=n))
    T = 5
    H = -(-len(pats) // T)
    P = np.array((pats * 2)[:T * H]).reshape(T, H, n).transpose(2, 0, 1)
    m = scene.scene(T, H, n, {}, key="p14f")
    a = np.where(P == 0, np.nan, P) if u["float"] else P.astype(np.uint8)
    scene.put(m, "msk", a)
    for num in (1, 2, 3, [1, 3], [2], [1, 2, 3, 4], [4, 2], 4, [3, 4]):
        for den in (None, [1, 2], 1, [1, 2, 3, 4]):
            out = calculate_phase_ratio(m, "msk", num, mask_allhyd=den)
            rec.trace()
            g = canon(out, out.ds["msk_fpr"])
            ns = [num] if np.isscalar(num) else num
            dsn = [1, 2, 3, 4] if den is None else [den] if np.isscalar(den) else den
            for t, h in np.ndindex(T, H):
                v = P[:, t, h].tolist()
                a1, b1 = sum(v.count(x) for x in ns), sum(v.count(x) for x in dsn)
                w = a1 / b1 if b1 else math.nan
                rec.state((u["float"], tuple(v)))
                ok = g[t, h] == w or (math.isnan(w) and math.isnan(g[t, h])) or abs(g[t, h] - w) < 1e-12
                if not ok:
                    rec.violation("fpr", "frequency ratio %r instead of %r" % (float(g[t, h]), w), {"mask": v, "numerator": num, "denominator": den, "float": u["float"]})
                rec.outcome((repr(num), repr(den), w if w == w else -1))
            rec.step(T * H)
    rec.check(np.array_equal(np.asarray(m.ds["msk"].values), a, equal_nan=True), "fpr:mask changed", "the mask itself was changed", u)
    rec.sample(u)


def mpr(u, rec):
    from emc2.simulator.classification import calculate_phase_ratio
    hyd = u.get("hyd", HYD)
    n = 8 if u["conv"] else 4
    combos = list(itertools.product((0, 1), repeat=n))
    N, T, H = 4, 2, 5
    need = -(-len(combos) * 2 // (T * H * 4)) * T * H * 4
    H = need // (T * N)
    P = np.array((combos * 4)[:need]).reshape(N, T, H, n)
    i = np.arange(need).reshape(N, T, H)
    msk = np.where((i // len(combos) + i) % 3 == 0, 0, 1 + i % 3)
    q = {h: scene.vary(T, H, N, k) for k, h in enumerate(hyd)}
    m = scene.scene(T, H, N, {h: P[..., k] > 0 for k, h in enumerate(hyd)}, conv_masks={h: P[..., 4 + k] > 0 for k, h in enumerate(hyd)} if u["conv"] else None,
                    qscale=q, conv_qscale=q, hyd=tuple(hyd), key="p14m")
    for h in hyd:
        g = np.where((np.arange(T * H).reshape(T, H) * 7 + ord(h[0])) % 3 == 0, 0., scene.QREF[h] * (1 + np.arange(T * H).reshape(T, H) / 50.))
        m.ds["qs_" + h] = (m.ds[m.T_field].dims, g)
    scene.put(m, "msk", msk.astype(np.uint8))
    use = u["sub"] or hyd
    liq, ice = [h for h in ("cl", "pl") if h in use], [h for h in hyd if h[-1] != "l" and h in use]
    for c in combos:
        rec.state((u["conv"], repr(u["sub"]), c))
    out = calculate_phase_ratio(m, "msk", 1, mass_pr=True, mpr_subcolmod=True, hyd_types=u["sub"])
    rec.trace()
    ml, mi = np.zeros((N, T, H)), np.zeros((N, T, H))
    for nm in ("strat", "conv") if u["conv"] else ("strat",):
        for tgt, hs in ((ml, liq), (mi, ice)):
            for h in hs:
                tgt += np.where(msk > 0, canon(m, m.ds["%s_q_subcolumns_%s" % (nm, h)]), 0.)
    want = {"msk_mpr": ml / (ml + mi), "msk_mpr_sum": ml.sum(0) / (ml.sum(0) + mi.sum(0))}
    out = calculate_phase_ratio(out, "msk", 1, mass_pr=True, hyd_types=u["sub"])
    rec.trace()
    gl, gi = (sum([m.ds["qs_" + h].values for h in hs], np.zeros((T, H))) for hs in (liq, ice))
    want["mpr_q"] = gl / (gl + gi)
    for f, w in want.items():
        g = canon(out, out.ds[f])
        ok = np.isclose(g, w, rtol=1e-10, atol=0, equal_nan=True)
        rec.step(g.size)
        rec.outcome((f, u["conv"], repr(u["sub"]), bool(np.isnan(w).any())))
        if not ok.all():
            j = tuple(map(int, np.argwhere(~ok)[0]))
            rec.violation("mpr:" + f, "%s is %r instead of %r" % (f, float(g[j]), float(w[j])), dict(u, cell=list(j)))
    rec.sample(u)
