"""P21: the particle size distribution of a cell holds exactly the number and mass of that cell, with the shape its scheme prescribes."""
import itertools
import math

import numpy as np

from .. import scene, synth
from ..scene import canon

BOUNDS = {
    "quick": "all combinations of 7 mixing ratios (with 0), 6 numbers (with 0), 3 bulk densities, 4 air densities x every class of 4 class sets x dispersion option "
             "None/True/False x 5 models x 4 shape bounds x stratiform and convective x 5 schemes; constant and variable particle density; 1 and 3 subcolumns",
    "thorough": "as quick with 12 mixing ratios, 11 numbers, 8 air densities and 6 shape bounds",
}
RULE = "one execution = the PSD of one class in one cell; judged by its moments, by numerical integration on a subset"
ASSUMPTIONS = ["Martin et al. (1994) dispersion takes the droplet number in cm^-3, which is the unit of the model's N fields",
               "cells with mass but no number (or the reverse) only have to stay free of negative values"]


def lattice(tier):
    if tier == "quick":
        q, n, r = (0., 1e-12, 1e-8, 2e-6, 1e-4, 1e-3, 8e-3), (0., 1e-6, 1e-2, 5., 180., 2500.), (.09, .45, .9, 1.25)
    else:
        q, n, r = tuple([0.] + list(np.geomspace(1e-13, 1e-2, 11))), tuple([0.] + list(np.geomspace(1e-7, 5e3, 10))), tuple(np.linspace(.05, 1.3, 8))
    return list(itertools.product(q, n, r))


SETS = {"MG2": synth.HYD, "mg": synth.HYD, "Morrison": ("cl", "ci", "pl", "sn", "gr"), "NSSL": ("cl", "ci", "pl", "sn", "gr", "ha"), "nssl": ("cl", "ci", "pl", "sn", "gr", "ha")}
BND = (None, (2, 15), (0, 3.5), (6, 6.5), (1, 40), (9., 12.))


def units(tier):
    u = []
    for N in (1, 3):
        for sch in SETS:
            for name in ("Synthetic", "ModelE", "ModelE3", "DHARMA", "CESM2"):
                for b in BND[:4] if tier == "quick" else BND:
                    u.append({"tier": tier, "N": N, "scheme": sch, "model": name, "bounds": b})
    return u


def martin(n, b):
    e = .0005714 * n + .2714
    return min(max(1. / e ** 2 - 1., b[0]), b[1])


def run_unit(u, rec):
    from emc2.simulator import psd as P
    L = lattice(u["tier"])
    hyd, N = SETS[u["scheme"]], u["N"]
    H = 6
    L = L + L[:(-len(L)) % (H * N)]
    a = np.array(L).reshape(N, -1, H, 3)
    T = a.shape[1]
    # air density through pressure: each cell its own
    for conv, disp, var in itertools.product((False, True), (None, True, False), (False, True)):
        m = synth.make_model(T, H, hyd=hyd, mcphys=u["scheme"], model_name=u["model"])
        m.ds["subcolumn"] = ("subcolumn", np.arange(N))
        rhoa = a[0, :, :, 2]
        m.ds["rho_a"] = (m.ds["t"].dims, rhoa.copy())
        dens = {h: synth.RHO[h] * (1 + .05 * j) for j, h in enumerate(hyd)}
        if var:
            for j, h in enumerate(hyd):
                if h[-1] != "l":
                    m.Rho_hyd = dict(m.Rho_hyd, **{h: "variable"})
                    m.variable_density = dict(m.variable_density, **{h: "dens_" + h})
                    m.ds["dens_" + h] = (m.ds["t"].dims, 100. + 40. * j + 10. * np.arange(T * H).reshape(T, H) % 700)
        for h in hyd:
            if conv and disp is not None and h != "cl":
                continue
            cs = "conv" if conv else "strat"
            scene.put(m, "%s_q_subcolumns_%s" % (cs, h), a[..., 0])
            scene.put(m, "%s_n_subcolumns_%s" % (cs, h), a[..., 1])
            kw = dict(is_conv=conv)
            if disp is not None:
                kw["calc_dispersion"] = disp
            if u["bounds"] is not None:
                kw["dispersion_mu_bounds"] = u["bounds"]
            f = P.calc_and_set_psd_params(m, h, **kw)
            n0, lam, mu = (canon(m, f[k]) for k in ("N_0", "lambda", "mu"))
            fixed = disp is False or (disp is None and u["model"] in ("ModelE", "ModelE3", "DHARMA"))
            b = u["bounds"] or (2, 15)
            for i, x, k in itertools.product(range(N), range(T), range(H)):
                q, n = a[i, x, k, 0], a[i, x, k, 1]
                ra = rhoa[x, k]
                rho = float(m.ds["dens_" + h].values[x, k]) if var and h[-1] != "l" else synth.RHO[h]
                rec.step()
                rec.trace()
                case = {"class": h, "q": q, "N_cm3": n, "rho_a": ra, "rho_hyd": rho, "conv": conv, "calc_dispersion": disp, "unit": {z: v for z, v in u.items() if z != "tier"}}
                g = float(mu[i, x, k])
                if h == "cl" and not conv:
                    e = 1. / .09 if fixed else martin(n, b)
                    known = not fixed and abs(g - martin(n * 1e-6, b)) <= 1e-9 * g
                else:
                    e, known = 0., False
                rec.check(abs(g - e) <= 1e-9 * abs(e), "martin-number-unit" if known else "mu", lambda: "shape parameter is %r, expected %r" % (g, e), case)
                rec.outcome((h, conv, fixed, q > 0, n > 0, e in b))
                if q <= 0:
                    rec.check(not lam[i, x, k] > 0, "empty", lambda: "a cell without mass has slope %r" % float(lam[i, x, k]), case)
                    continue
                if n <= 0:
                    rec.check(not n0[i, x, k] < 0 and not lam[i, x, k] < 0, "empty", lambda: "negative parameters without number", case)
                    continue
                la, A = float(lam[i, x, k]), float(n0[i, x, k])
                if not rec.check(la > 0 and A > 0, "positive", lambda: "intercept %r and slope %r" % (A, la), case):
                    continue
                lg = math.log(A) + math.lgamma(g + 1.) - (g + 1.) * math.log(la)
                num = math.exp(lg)
                rec.check(abs(num - n * 1e6) <= 1e-9 * n * 1e6, "number", lambda: "the PSD holds %r particles per m3, the cell %r" % (num, n * 1e6), case)
                mass = math.pi / 6. * rho * math.exp(math.log(A) + math.lgamma(g + 4.) - (g + 4.) * math.log(la))
                rec.check(abs(mass - q * ra) <= 1e-9 * q * ra, "mass", lambda: "the PSD holds %r kg per m3, the cell %r" % (mass, q * ra), case)
                if (x * H + k) % 41 == 0:
                    D = np.linspace(0., 60. / la, 60001)
                    f3 = A * D ** g * np.exp(-la * D)
                    s = float(np.trapezoid(f3, D) if hasattr(np, "trapezoid") else np.trapz(f3, D))
                    rec.check(abs(s - n * 1e6) <= 1e-5 * n * 1e6, "number", lambda: "integrating the PSD gives %r particles per m3, the cell has %r" % (s, n * 1e6), case)
                rec.state((u["scheme"], u["model"], u["bounds"], h, conv, disp, var, N, q, n, ra))
    rec.sample(u)
