"""P20: gaseous absorption and molecular scattering follow the local pressure, temperature and humidity, in any units."""
import itertools
import math

import numpy as np

from .. import chain, synth
from ..scene import canon

BOUNDS = {
    "quick": "all 5x6x4 combinations of pressure (12 to 1030 hPa, on both sides of 25 and 333 hPa), temperature (200 to 310 K) and humidity x 8 radar frequencies "
             "and 6 lidar wavelengths x both directions, arranged in columns of 2, 3 and 6 levels; every combination of the units Pa/hPa/mbar, K/degC, m/km for both kinds",
    "thorough": "as quick with 9 pressures, 9 temperatures, 6 humidities, 14 frequencies, 10 wavelengths and 4 column heights",
}
RULE = "one execution = one model column (frequency or wavelength, direction, units) judged cell by cell against the scalar formulas"
ASSUMPTIONS = ["reference formulas: Ulaby et al. (1981) / Straka for gases, Bucholtz/Edlen-type refractive index with the constants documented in the code"]
RD = 287.058


def lattice(tier):
    if tier == "quick":
        P, T, Q = (12., 24.999, 180., 333., 700., 1013.), (200., 255., 273.15, 288., 310.), (0., 1e-5, 2e-3, 1.8e-2)
    else:
        P = (1., 24.9, 25., 100., 300., 332.9, 333., 600., 850., 1030.)
        T, Q = (180., 200., 230., 255., 270., 273.15, 288., 300., 320.), (0., 1e-6, 1e-4, 2e-3, 8e-3, 2.5e-2)
    return list(itertools.product(P, T, Q))


def gas(f, p, t, q):
    rho = q * 1e3 * p * 100. / (RD * t)
    r = 300. / t
    g = 2.85 * (p / 1013.) * r ** .626 * (1 + .018 * rho * t / p)
    wv = 2 * f ** 2 * rho * r ** 1.5 * g * (r * math.exp(-644. / t) / ((494.4 - f ** 2) ** 2 + 4 * f ** 2 * g ** 2) + 1.2e-6)
    g0 = .59 if p >= 333. else (1.18 if p < 25. else .59 * (1 + 3.1e-3 * (333. - p)))
    gl = g0 * (p / 1013.) * r ** .85
    o2 = 1.1e-2 * f ** 2 * (p / 1013.) * r ** 2 * gl * (1. / ((f - 60.) ** 2 + gl ** 2) + 1. / (f ** 2 + gl ** 2))
    return wv, o2


def molecular(lam, p, t, consts):
    """(extinction 1/m, volume backscatter 1/(m sr), number density 1/m3) of air (lam in microns, p in hPa, t in K)."""
    tc = t - 273.15
    nu2 = 1. / lam ** 2
    n15 = 1 + (6432.8 + 2949810. / (146. - nu2) + 25540. / (41. - nu2)) * 1e-8
    n = 1 + (n15 - 1) * (1 + .00366 * 15.) / (1 + .00366 * tc) * p / 1013.25
    N = p * 100. / (consts["R"] * t) * consts["Avogadro_c"]            # per m3
    lm = lam * 1e-6
    d = .035
    F = (6 + 3 * d) / (6 - 7 * d)
    sig = 8 * math.pi ** 3 / 3. * (n ** 2 - 1) ** 2 / (N ** 2 * lm ** 4) * F
    s180 = math.pi ** 2 * (n ** 2 - 1) ** 2 * 2 * (2 + d) / (N ** 2 * lm ** 4 * (6 - 7 * d)) * .7629 * (1 + .932)
    return sig * N, s180 * N, N, n


PU = {"Pa": 100., "hPa": 1., "millibar": 1.}
TU = ("kelvin", "degC")
ZU = {"meter": 1., "kilometer": 1e-3}


def make(p, t, q, z, up="hPa", ut="kelvin", uz="meter"):
    T, H = p.shape
    return synth.make_model(T, H, z=z * ZU[uz], p=p * PU[up], t=t if ut == "kelvin" else t - 273.15, qv=q,
                            units={"p": up, "t": ut, "z": uz})


def columns(tier, H):
    L = lattice(tier)
    L = L + L[: (-len(L)) % H]
    a = np.array(L).reshape(-1, H, 3)
    z = np.tile(200. + 700. * np.arange(H) + 60. * np.arange(H) ** 2, (a.shape[0], 1)) + 3. * np.arange(a.shape[0])[:, None]
    return a[:, :, 0], a[:, :, 1], a[:, :, 2], z


def units(tier):
    fr = (3.0, 9.71, 24., 34.86, 59.9, 60., 94., 183.) if tier == "quick" else (2.8, 5.6, 9.71, 14, 22.2, 24., 34.86, 35.5, 59.9, 60., 94., 118.75, 183., 220.)
    wl = (.355, .532, .808, .91, 1.064, 1.6) if tier == "quick" else (.266, .355, .4, .532, .7, .808, .91, 1.064, 1.55, 2.1)
    Hs = (2, 3, 6) if tier == "quick" else (2, 3, 5, 6)
    u = [{"tier": tier, "what": "gas", "f": f, "H": H} for f in fr for H in Hs]
    u += [{"tier": tier, "what": "mol", "w": w, "H": H, "sfc": s} for w in wl for H in Hs for s in (True, False)]
    u += [{"tier": tier, "what": "units", "kind": k, "sfc": s} for k in ("radar", "lidar") for s in (True, False)]
    return u


def radar(f):
    import emc2
    from emc2.core.instrument import ureg
    return emc2.core.Instrument(frequency=f * ureg.GHz)


def near(a, b, rt=1e-9, at=1e-300):
    return abs(a - b) <= rt * max(abs(a), abs(b)) + at


def run_unit(u, rec):
    import emc2.simulator as sim
    if u["what"] == "gas":
        p, t, q, z = columns(u["tier"], u["H"])
        for up, ut in (("hPa", "kelvin"), ("Pa", "degC")):
            m = make(p, t, q, z, up, ut)
            sim.attenuation.calc_radar_atm_attenuation(radar(u["f"]), m)
            g = {k: canon(m, m.ds["kappa_" + k]) for k in ("wv", "o2", "att")}
            for i in np.ndindex(*p.shape):
                wv, o2 = gas(u["f"], p[i], t[i], q[i])
                rec.step()
                rec.trace()
                rec.state(("gas", u["f"], p[i], t[i], q[i]))
                case = {"frequency_GHz": u["f"], "p_hPa": p[i], "T_K": t[i], "q": q[i], "units": [up, ut]}
                # converting units is inexact: a pressure that lands an ulp below a threshold may take the other side of it
                edge = up != "hPa" and (p[i] in (25., 333.))
                rec.check(near(g["wv"][i], wv, 1e-7), "wv", lambda: "water vapour absorption is %r dB/km, expected %r" % (float(g["wv"][i]), wv), case)
                rec.check(edge or near(g["o2"][i], o2, 1e-7), "o2", lambda: "oxygen absorption is %r dB/km, expected %r" % (float(g["o2"][i]), o2), case)
                rec.check(near(g["att"][i], g["wv"][i] + g["o2"][i], 1e-12), "att", lambda: "total absorption %r is not %r + %r" % (
                    float(g["att"][i]), float(g["wv"][i]), float(g["o2"][i])), case)
                rec.outcome(("gas", p[i] >= 333, p[i] < 25, q[i] > 0))
    elif u["what"] == "mol":
        p, t, q, z = columns(u["tier"], u["H"])
        H = u["H"]
        for up, ut, uz in (("hPa", "kelvin", "meter"), ("Pa", "degC", "kilometer")):
            m = make(p, t, q, z, up, ut, uz)
            sim.attenuation.calc_theory_beta_m(m, u["w"], OD_from_sfc=u["sfc"])
            g = {k: canon(m, m.ds[k]) for k in ("tau", "beta", "sigma_180_vol", "u_atm", "N_s", "n_s", "sigma", "sigma_180", "kappa")}
            for x in range(p.shape[0]):
                ref = [molecular(u["w"], p[x, k], t[x, k], m.consts) for k in range(H)]
                for k in range(H):
                    rng_ = range(0, k) if u["sfc"] else range(k, H - 1)
                    od = sum((z[x, j + 1] - z[x, j]) * (ref[j][0] + ref[j + 1][0]) / 2 for j in rng_)
                    rec.step()
                    rec.trace()
                    rec.state(("mol", u["w"], p[x, k], t[x, k], H, k, u["sfc"]))
                    case = {"wavelength_um": u["w"], "p_hPa": p[x, k], "T_K": t[x, k], "level": k, "levels": H, "from_surface": u["sfc"], "units": [up, ut, uz]}
                    for name, e in (("beta", ref[k][0]), ("sigma_180_vol", ref[k][1]), ("N_s", ref[k][2]), ("n_s", ref[k][3]), ("u_atm", od), ("tau", math.exp(-2 * od)),
                                    ("sigma", ref[k][0] / ref[k][2]), ("sigma_180", ref[k][1] / ref[k][2]), ("kappa", ref[k][0] / (100. * p[x, k] / (287.058 * t[x, k])))):
                        rec.check(near(g[name][x, k], e, 1e-7), "mol:" + name, lambda: "%s is %r, expected %r" % (name, float(g[name][x, k]), e), case)
                    rec.outcome(("mol", u["sfc"], k == 0, k == H - 1))
    else:
        from . import p07
        from ..scene import diff_fields, describe, out_fields
        base = None
        for up, ut, uz in itertools.product(PU, TU, ZU):
            m = p07.build(["mixed", "conv", "warm"], True)
            m.ds["p_3d"] = (m.ds["p_3d"] * PU[up]).assign_attrs(units=up)
            m.ds["t"] = (m.ds["t"] - (0 if ut == "kelvin" else 273.15)).assign_attrs(units=ut)
            m.ds["z"] = (m.ds["z"] * ZU[uz]).assign_attrs(units=uz)
            res = {}
            for logic in ("rad", "micro", "emp"):
                c = p07.build(["mixed", "conv", "warm"], True)
                c.ds = m.ds.copy()
                chain.simulate(c, u["kind"], logic, 3, OD_from_sfc=u["sfc"], do_classify=True)
                skip = ("N_0", "lambda", "mu")
                res.update({logic + ":" + k: v for k, v in out_fields(c).items() if k not in skip})
                rec.trace()
            rec.step()
            rec.state(("units", u["kind"], u["sfc"], up, ut, uz))
            if base is None:
                base = res
                continue
            bad = diff_fields(base, res, rtol=1e-6, atol=1e-12)
            rec.outcome(("units", up, ut, uz, bool(bad)))
            rec.check(not bad, "units:" + u["kind"], lambda: "with units %s the result differs: %s" % ([up, ut, uz], describe(base, res, bad[0])),
                      {"kind": u["kind"], "units": [up, ut, uz], "fields": bad[:5]})
    rec.sample(u)
