"""P19: every cell's radar and lidar variables of every class are those of the forward model applied to the contents of that cell.

The reference below is written per cell in plain scalar arithmetic from the published definitions (docs, papers cited in the
docstrings); it shares only the look-up table numbers with the code.
"""
import math

import numpy as np

from .. import chain, env, scene, synth
from ..scene import canon

BOUNDS = {
    "quick": "27 columns (mass x temperature x effective radius lattice 3x3x3) each holding all 16 presence combinations of the 4 classes (rotated), x radar and lidar x "
             "radiation (ModelE, CESM) / microphysics (ModelE, CESM, fixed and diagnosed dispersion, 2 fall speed corrections) / empirical logic x ice "
             "spheres or habits x fluffiness on/off x stratiform/convective x 1 and 4 subcolumns; synthetic tables, and the real KAZR and HSRL tables",
    "thorough": "as quick with number concentration lattice (81 columns), 2 and 8 subcolumns, CSAPR, WACR, NEXRAD, CEIL and RL tables and the seven-class (MG2-like) set",
}
RULE = "one execution = one class in one cell of the enumerated lattice compared with the scalar reference"
ASSUMPTIONS = ["the top model level is clear of stratiform hydrometeors (their allocation never reaches it); convective ones there are judged with the layer "
               "above the top level taken as thick as the layer below it", "table numbers are taken as loaded (their loading is judged by P23)",
               "the empirical ice extinction is judged with the code's unit of water content"]
HYD = synth.HYD
G, RD, RHOI = 9.80665, 287.058, 917.
RE0 = {"cl": 8., "pl": 120., "ci": 35., "pi": 150.}
LUT = {"ModelE": ("E3_liq", "E3_ice", "mie_ice_E3_PSD", "E3_ice", "p_diam_eq_V"),
       "CESM": ("CESM_liq", "CESM_ice", "mie_ice_CESM_PSD", "CESM_ice", "p_diam")}
H = 5


def trapz(y, x):
    s = 0.
    for i in range(len(x) - 1):
        s += (x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2.
    return s


_REAL = {}


def instrument(name):
    import emc2
    if name in ("radar", "lidar"):
        return chain.inst(name)
    if name.startswith("radar@"):
        return _real(name, lambda: _band(float(name[6:])))
    site = {"KAZR": ("nsa",), "WACR": ("sgp",), "XSACR": (), "CSAPR": (), "NEXRAD": ()}
    return _real(name, lambda: getattr(emc2.core.instruments, name)(*site.get(name, ())))


def _real(name, build):
    if name not in _REAL:
        with env.quiet():
            _REAL[name] = build()
    return _REAL[name]


def _band(ghz):
    import emc2
    from emc2.core.instrument import ureg
    i = emc2.core.Instrument(frequency=ghz * ureg.GHz)
    s = chain.inst("radar")
    for k in ("instrument_class", "instrument_str", "K_w", "eps_liq", "Z_min_1km", "OD_from_sfc", "mie_table", "scat_table", "bulk_table"):
        setattr(i, k, getattr(s, k))
    return i


def columns(tier):
    qs, dts, rs = (.02, 1., 20.), (-25., 0., 8.), (.4, 1., 2.2)
    ns = (1.,) if tier == "quick" else (.1, 1., 12.)
    return [(a, b, c, d) for a in qs for b in dts for c in rs for d in ns]


def build(u, cols):
    T, N = len(cols), u["N"]
    hyd = tuple(u.get("hyd", HYD))
    lev = np.arange(H)
    z0 = np.array([300., 900., 1700., 2600., 4200.])
    dt = np.array([c[1] for c in cols])[:, None]
    z = z0 + 7. * dt
    t = 288. + dt - 6.5e-3 * z0
    p = 1000. * np.exp(-z0 / 8000.) * (1 + dt * 2e-3)
    rs = np.array([c[2] for c in cols])[:, None]
    re = {h: RE0.get(h, 90.) * rs * (1 + .07 * lev) for h in hyd}
    re.update({h + "_conv": RE0.get(h, 90.) * rs * (1.3 - .05 * lev) for h in hyd})
    mk = {h: np.zeros((N, T, H), bool) for h in hyd}
    for i in range(N):
        for k in range(H if u.get("conv") else H - 1):
            for x in range(T):
                pat = ((i * (H - 1) + k) * (16 // (N * (H - 1)) or 1) + x * (1 if N * (H - 1) >= 16 else 5)) % 16
                for b, h in enumerate(hyd):
                    mk[h][i, x, k] = bool(pat >> (b % 4) & 1)
    cs = np.array([c[0] for c in cols])[None, :, None]
    cn = np.array([c[3] for c in cols])[None, :, None]
    q = {h: cs * (1 + .13 * ((np.arange(N)[:, None, None] + 2 * lev[None, None, :] + j) % 5)) * np.ones((N, T, H)) for j, h in enumerate(hyd)}
    n = {h: cn * (1 + .11 * ((np.arange(N)[:, None, None] + lev[None, None, :] + j) % 4)) * np.ones((N, T, H)) for j, h in enumerate(hyd)}
    kw = dict(rad=u["rad"], rhoa_corr=u.get("corr", False), z=z, t=t, p=p, re=re, fluffy=u.get("fluffy", True), hyd=hyd,
              model_name=u.get("mname", "Synthetic"), mcphys=u.get("mcphys", "MG2"), key="p19")
    if u.get("conv"):
        m = scene.scene(T, H, N, {h: False for h in hyd}, conv_masks=mk, conv_qscale=q, nscale=n, **kw)
    else:
        m = scene.scene(T, H, N, mk, qscale=q, nscale=n, **kw)
    dims = m.ds["t"].dims
    dens = {}
    for j, h in enumerate(u.get("variable", ())):
        dens[h] = 150. + 90. * rs + 60. * lev + 40. * j + np.zeros((T, H))
        m.ds["dens_" + h] = (dims, dens[h])
        m.Rho_hyd = dict(m.Rho_hyd, **{h: "variable"})
        m.variable_density = dict(m.variable_density or {}, **{h: "dens_" + h})
    inst = instrument(u["inst"])
    if u["rad"] == "CESM":
        tab = inst.bulk_table["CESM_liq"]
        mu, lam = np.asarray(tab["mu"].values), np.asarray(tab["lambda"].values)
        m.mu_field, m.lambda_field = {}, {}
        for j, h in enumerate(("cl", "pl")):
            mi = 1 + (np.arange(T)[:, None] * 2 + lev + j) % (len(mu) - 2)     # interior nodes: hull edges are exact only up to rounding
            li = 1 + (np.arange(T)[:, None] + 3 * lev + 2 * j) % (lam.shape[0] - 2)
            m.ds["mu_" + h] = (dims, mu[mi])
            m.ds["la_" + h] = (dims, lam[li, mi])
            m.mu_field[h], m.lambda_field[h] = "mu_" + h, "la_" + h
        for h in hyd:
            m.mu_field.setdefault(h, None)
            m.lambda_field.setdefault(h, None)
    return m, mk, dict(z=z, t=t, p=p, re=re, dens=dens)


def density(env_, h, x, k):
    return env_["dens"][h][x, k] if h in env_["dens"] else synth.RHO[h]


def bulk(u, inst, m, env_, h, q, x, k, rad_name):
    """(backscatter per m, extinction per m) of a class with the bulk look-up tables."""
    liq, ice, mie = LUT[u["rad"]][:3]
    j = min(k, H - 2)
    dz = env_["z"][x, j + 1] - env_["z"][x, j]
    dp = abs(env_["p"][x, j + 1] - env_["p"][x, j]) * 100.
    re = env_["re"][h + ("_conv" if u.get("conv") else "")][x, k]
    rho = density(env_, h, x, k)
    if h[-1] == "l":
        tab = inst.bulk_table[liq]
        if u["rad"] == "CESM":
            M, L = float(m.ds["mu_" + h].values[x, k]), float(m.ds["la_" + h].values[x, k])
            d = np.abs(np.asarray(tab["lambda"].values) / L - 1) + np.abs(np.asarray(tab["mu"].values)[None, :] / M - 1)
            i = np.unravel_index(np.argmin(d), d.shape)
            qb, qe = float(tab["Q_back"].values[i]), float(tab["Q_ext"].values[i])
        dens = rho
    else:
        tab = inst.bulk_table[mie if u.get("mie") else ice]
        dens = RHOI
        if u.get("fluffy", True):
            re = re * (.5 * rho / RHOI + .5 * (rho / RHOI) ** (1. / 3.))
    if not (h[-1] == "l" and u["rad"] == "CESM"):
        qb = float(np.interp(re, tab["r_e"].values, tab["Q_back"].values))
        qe = float(np.interp(re, tab["r_e"].values, tab["Q_ext"].values))
    A = 3. * q * (dp / G) / (2. * dens * re * 1e-6) / (2. * dz)
    return qb * A, qe * A


def table(u, inst, h):
    if h[-1] == "l":
        t, d = inst.mie_table[h], "p_diam"
    elif u.get("mie"):
        t, d = inst.mie_table["ci" if h == "ci" else "pi"], "p_diam"
    else:
        t, d = inst.scat_table[LUT[u["rad"]][3]], LUT[u["rad"]][4]
    return np.asarray(t[d].values, dtype=float), np.asarray(t["beta_p"].values, dtype=float), np.asarray(t["alpha_p"].values, dtype=float)


def psd(u, env_, h, q, n, D, mu, x, k):
    rho = density(env_, h, x, k)
    mass = q * env_["p"][x, k] * 100. / (RD * env_["t"][x, k])             # kg of hydrometeors per m3 of air
    lam = (rho * math.pi / 6. * n * 1e6 * math.gamma(mu + 4.) / (mass * math.gamma(mu + 1.))) ** (1. / 3.)
    n0 = n * 1e6 * lam ** (mu + 1.) / math.gamma(mu + 1.)
    return n0 * D ** mu * np.exp(-lam * D)


def nssl(h, D, rho):
    if h == "pl":
        return 10. * (1 - np.exp(-516.575 * D))
    if h in ("gr", "ha"):
        cd = max(.45, min(1.2, .45 + .55 * (800. - max(170. if h == "gr" else 500., min(800., rho)))))
        return math.sqrt(4. * rho * 9.81 / (3. * cd * 1.007)) * np.sqrt(D)
    return {"sn": 21.52823061429272 * D ** .42, "cl": 131.6 * D ** .824}.get(h, 0. * D)


def speed(u, env_, h, D, x, k):
    if u.get("mcphys") == "nssl":
        return -nssl(h, D, density(env_, h, x, k))
    v = synth.VA.get(h, 11.72) * D ** synth.VB.get(h, .41)
    if u.get("corr"):
        rho = env_["p"][x, k] * 100. / (RD * env_["t"][x, k])
        ref = {"cl": 1.0, "ci": 1.0, "pl": 1.1, "pi": 1.15}.get(h)
        v = v * (ref / rho) ** .54 if ref else v
    return -v


def empirical_radar(inst, h, wc, tc):
    if h == "cl":
        return .031 * wc ** 1.56
    if h == "pl":
        return (wc * 1e3 / 3.4) ** 1.75
    f = inst.freq / 1e9
    lw = math.log10(wc)
    if 2 <= f < 4:
        db = (lw + .0197 * tc + 1.7) / .060
    elif 75 <= f < 110:
        db = (lw + .00706 * tc + .992) / (.000580 * tc + .0923)
    else:
        db = (lw + .0186 * tc + 1.63) / (.000242 * tc + .0699)
    return 10 ** (db / 10.)


def dispersion(m, u):
    if u.get("disp") is False:
        return None
    from emc2.simulator import psd as P
    c = m.ds.copy()
    P.calc_mu_lambda(m, "cl")
    out = canon(m, m.ds["mu"])
    m.ds = c
    return out


def units(tier):
    u = []
    Ns = (4, 1) if tier == "quick" else (4, 1, 2, 8)

    def add(**k):
        k["tier"] = tier
        u.append(k)
    for N in Ns:
        for rad in ("ModelE", "CESM"):
            for mie in (False, True):
                for fl in (True, False):
                    for inst in ("radar", "lidar"):
                        for conv in (False, True):
                            add(inst=inst, logic="rad", rad=rad, mie=mie, fluffy=fl, conv=conv, N=N)
                for inst in ("radar", "lidar"):
                    for corr in ((False, True) if inst == "radar" else (False,)):
                        for disp in (False, True):
                            add(inst=inst, logic="micro", rad=rad, mie=mie, corr=corr, disp=disp, N=N)
        for conv in (False, True):
            for inst in ("radar@3.0", "radar@9.7", "radar", "radar@94", "radar@120", "lidar"):
                add(inst=inst, logic="emp", rad="ModelE", conv=conv, N=N)
    for hyd, sch, var in ((("cl", "ci", "pl", "sn", "gr", "ha"), "nssl", ("gr", "ha")), (("cl", "ci", "pl", "sn", "gr", "ha"), "MG2", ("sn",)),
                          (("cl", "ci", "pl", "pir", "pid", "pif"), "morrison", ())):
        for inst in ("radar", "lidar"):
            for logic in ("rad", "micro", "emp"):
                for mie in (False, True):
                    if logic != "emp" or mie:
                        add(inst=inst, logic=logic, rad="ModelE", mie=mie, N=4, conv=False, hyd=list(hyd), mcphys=sch, variable=list(var), few=True)
    for inst in ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "HSRL", "CSAPR", "WACR", "NEXRAD", "CEIL", "RL", "XSACR"):
        for rad in ("ModelE", "CESM"):
            for mie in (False, True):
                add(inst=inst, logic="rad", rad=rad, mie=mie, N=4, conv=False)
                add(inst=inst, logic="micro", rad=rad, mie=mie, disp=False, corr=True, N=2, few=True)
        add(inst=inst, logic="emp", rad="ModelE", N=4, conv=False)
    for inst in ("radar", "lidar"):
        for conv in (False, True):
            add(inst=inst, logic="rain", rad="CESM", mie=False, N=2, conv=conv, few=True)
    return u


RT = 1e-9


def close(a, b, rt=RT, at=0.):
    if a != a or b != b:
        return (a != a) and (b != b)
    return abs(a - b) <= rt * max(abs(a), abs(b)) + at


def rain(u, rec, cols):
    """Rain without size distribution fields (as declared by the E3SM models) does not depend on the size distribution of cloud droplets."""
    res = []
    kind, cs = u["inst"], "conv" if u.get("conv") else "strat"
    names = ["Ze"] if kind == "radar" else ["beta_p", "alpha_p"]
    for shift in (0, 3):
        m, mk, e = build(u, cols)
        m.mu_field["pl"] = m.lambda_field["pl"] = None
        inst = instrument(u["inst"])
        tab = inst.bulk_table["CESM_liq"]
        lam = np.asarray(tab["lambda"].values)
        v = m.ds["la_cl"].values
        i = np.argmin(np.abs(lam[:, :, None, None] - v).reshape(-1, *v.shape), axis=0)
        r, c = np.unravel_index(i, lam.shape)
        m.ds["la_cl"] = (m.ds["la_cl"].dims, lam[1 + (r - 1 + shift) % (lam.shape[0] - 2), c])
        chain.moments(m, kind, bool(u.get("conv")), "rad", instrument=inst, mie_for_ice=False)
        res.append({f: canon(m, m.ds["sub_col_%s_pl_%s" % (f, cs)]) for f in names})
        res[-1]["cl"] = canon(m, m.ds["sub_col_%s_cl_%s" % (names[0], cs)])
        rec.trace()
    if np.array_equal(res[0]["cl"], res[1]["cl"], equal_nan=True):
        rec.violation("rain-selftest", "cloud liquid does not depend on its own size distribution", u)
    for f in names:
        a, b = res[0][f], res[1][f]
        for idx in np.ndindex(a.shape):
            rec.step()
            rec.check(close(a[idx], b[idx]), "rain-uses-cloud-psd:%s:%s" % (kind, f), lambda:
                      "%s of rain is %r and becomes %r when only the slope of the cloud droplets changes" % (f, float(a[idx]), float(b[idx])),
                      {"cell": list(idx), "unit": u})


def run_unit(u, rec):
    cols = columns(u["tier"])
    if u["logic"] == "rain":
        return rain(u, rec, cols[::4])
    if u.get("few"):
        cols = cols[::4]
    m, mk, e = build(u, cols)
    inst = instrument(u["inst"])
    kind = inst.instrument_class.lower()
    hyd = tuple(u.get("hyd", HYD))
    conv = bool(u.get("conv"))
    cs = "conv" if conv else "strat"
    kw = dict(mie_for_ice=bool(u.get("mie")))
    if u["logic"] == "micro" and u.get("disp") is not None:
        kw["calc_dispersion"] = u["disp"]
    if u["logic"] == "emp":
        kw = {}
    Q = {h: canon(m, m.ds["%s_q_subcolumns_%s" % (cs, h)]) for h in hyd}
    NN = {h: canon(m, m.ds["strat_n_subcolumns_%s" % h]) for h in hyd}
    mus = dispersion(m, u) if u["logic"] == "micro" else None
    chain.moments(m, kind, conv, u["logic"], instrument=inst, **kw)
    F = {}

    def get(name):
        if name not in F:
            F[name] = canon(m, m.ds[name])
        return F[name]
    lam4 = inst.wavelength ** 4 if kind == "radar" else None
    fac = lam4 / (inst.K_w * math.pi ** 5) * 1e-6 if kind == "radar" else None
    N, T = u["N"], len(cols)
    for i in range(N):
        for x in range(T):
            for k in range(H if conv else H - 1):
                ext_cell, spec = 0., []
                for h in hyd:
                    rec.step()
                    rec.trace()
                    present = bool(mk[h][i, x, k])
                    q, n = float(Q[h][i, x, k]), float(NN[h][i, x, k])
                    tc = e["t"][x, k] - 273.15
                    where = {"class": h, "cell": [i, x, k], "column": list(cols[x]), "unit": {a: b for a, b in u.items() if a != "tier"}}
                    site = "%s:%s:%s" % (kind, u["logic"], h)
                    V = S = None
                    ext = 0.
                    if present:
                        wc = q * e["p"][x, k] * 100. / (RD * e["t"][x, k])
                        if u["logic"] == "rad":
                            back, ext = bulk(u, inst, m, e, h, q, x, k, None)
                        elif u["logic"] == "micro":
                            D, b, a = table(u, inst, h)
                            mu = 0. if h != "cl" else (1 / .09 if mus is None else float(mus[i, x, k]))
                            nd = psd(u, e, h, q, n, D, mu, x, k)
                            back, ext = trapz(b * nd, D), trapz(a * nd, D)
                            if kind == "radar" and back > 0:
                                v = speed(u, e, h, D, x, k)
                                V = trapz(v * b * nd, D) / back
                                S = math.sqrt(trapz((v - V) ** 2 * b * nd, D) / back)
                                spec.append((D, b * nd, v, back))
                        elif kind == "radar":
                            back = empirical_radar(inst, h, wc * 1e3, tc) / fac
                            ext = wc * 1e3 if h[-1] == "l" else 0.
                        else:
                            if h[-1] == "l":
                                ext = 3 * wc / (2 * density(e, h, x, k) * e["re"][h + ("_conv" if conv else "")][x, k] * 1e-6)
                            else:
                                ext = (wc / (.00532 * (tc + 90) ** 2.55)) ** (1 / (1.31 * math.exp(.0047 * tc)))
                            back = ext / synth.LRATIO.get(h, 24.)
                    if kind == "radar":
                        g = get("sub_col_Ze_%s_%s" % (h, cs))[i, x, k]
                        exp = 10 * math.log10(back * fac) if present and back > 0 else float("nan")
                        rec.check(close(g, exp, at=1e-7), "ze:" + site, lambda: "reflectivity of %s is %r dBZ, expected %r" % (h, float(g), exp), where)
                        if u["logic"] == "micro" and present and V is not None:
                            gv = get("sub_col_Vd_%s_strat" % h)[i, x, k]
                            rec.check(close(gv, V, 1e-8), "vd:" + site, lambda: "Doppler velocity of %s is %r m/s, expected %r" % (h, float(gv), V), where)
                            gs = get("sub_col_sigma_d_%s_strat" % h)[i, x, k]
                            rec.check(close(gs, S, 1e-7), "sigma:" + site, lambda: "spectral width of %s is %r m/s, expected %r" % (h, float(gs), S), where)
                        ext_cell += ext
                    else:
                        gb = get("sub_col_beta_p_%s_%s" % (h, cs))[i, x, k]
                        ga = get("sub_col_alpha_p_%s_%s" % (h, cs))[i, x, k]
                        eb, ea = (back, ext) if present else (0., 0.)
                        rec.check(close(gb, eb), "beta:" + site, lambda: "backscatter of %s is %r, expected %r" % (h, float(gb), eb), where)
                        rec.check(close(ga, ea), "alpha:" + site, lambda: "extinction of %s is %r, expected %r" % (h, float(ga), ea), where)
                    rec.outcome((site, present))
                if kind == "radar" and k < H - 1:
                    tr = get("hyd_ext_%s" % cs)
                    dz = e["z"][x, k + 1] - e["z"][x, k]
                    # the layer between two levels carries the extinction of its lower level (instrument at the surface)
                    if u["logic"] == "emp":
                        eps = inst.eps_liq
                        kf = 6 * math.pi / (inst.wavelength * 1000.) * ((eps - 1) / (eps + 2)).imag * 4.34e6
                        er = 10 ** (-.2 * ext_cell * kf * dz / 1e3)
                    else:
                        er = math.exp(-2 * ext_cell * dz)
                    lo, hi = tr[i, x, k], tr[i, x, k + 1]
                    if lo > 1e-200 and er > 1e-200 and hi > 1e-200:
                        rec.check(close(hi, lo * er, 1e-8, 1e-15), "extinction:%s:%s" % (kind, u["logic"]), lambda:
                                  "two-way transmittance of the layer is %r, expected %r" % (float(hi / lo), er), {"cell": [i, x, k], "unit": u})
                    if u["logic"] == "micro" and spec:
                        P = sum(s[3] for s in spec)
                        V = sum(trapz(s[2] * s[1], s[0]) for s in spec) / P
                        S = math.sqrt(sum(trapz((s[2] - V) ** 2 * s[1], s[0]) for s in spec) / P)
                        gv, gs = get("sub_col_Vd_tot_strat")[i, x, k], get("sub_col_sigma_d_tot_strat")[i, x, k]
                        rec.check(close(gv, V, 1e-8), "vd:total", lambda: "total Doppler velocity is %r, expected %r" % (float(gv), V), {"cell": [i, x, k], "unit": u})
                        rec.check(close(gs, S, 1e-7), "sigma:total", lambda: "total spectral width is %r, expected %r" % (float(gs), S), {"cell": [i, x, k], "unit": u})
                rec.state((u["inst"], u["logic"], u["rad"], u.get("mie"), u.get("fluffy"), u.get("corr"), conv, N, i, x, k))
    rec.sample({"columns": T, "unit": u})
