"""P27: scattering properties of water and ice spheres follow Mie theory at the particles asked for."""
import itertools

import numpy as np

BOUNDS = {
    "quick": "refractive index of water at 12 wavelengths x 9 temperatures and of ice at 12 x 5 x 6 densities, scalar and array arguments; "
             "scattering by water and ice at 6 wavelengths x 4 (temperature, pressure, density) each x every sequence of 1 to 3 of 7 diameters (399; sorted, unsorted, repeated, single) "
             "as array and as DataArray; long linear, logarithmic and table grids",
    "thorough": "20 wavelengths x 15 temperatures; 12 wavelengths x 8 (temperature, pressure, density); sequences of up to 4 of 7 diameters (2800)",
}
RULE = "state = one (phase, medium, wavelength, diameter) or one (wavelength, temperature, density); judged against a separate Mie series (Bohren & Huffman), with the small-sphere limit accepted below size parameter 0.05"
ASSUMPTIONS = ["the backscattering efficiency is that of Bohren & Huffman (no division by 4 pi), as the code has it",
               "the index of the medium is 1 + 77.6e-6 p/T; the reported compre_* may be referred to any index of air between 1 and 1.0005",
               "the permittivity of water is that of Meissner and Wentz (2004), that of dry ice 1 + 2 rho with Tiuri et al. (1984) losses"]
LAM = [.316, .86, 1.36, 3.2, 5.4, 10.]                    # cm
LAM2 = LAM + [.15, .2, 2.2, 7., 15., 20.]
DIAM = [1., 20., 300., 1500., 4000., 9000., 27.5]        # microns
COND = {"water": [(0., 1013., None), (20., 850., None), (-15., 500., None), (35., 1013., None)],
        "ice": [(0., 1013., .5), (-40., 300., .9), (-5., 800., .1), (-20., 600., .7)]}
COND2 = {"water": COND["water"] + [(-30., 250., None), (10., 700., None), (27., 1000., None), (5., 0., None)],
         "ice": COND["ice"] + [(-60., 200., .3), (0., 1000., .917), (-10., 900., .05), (-30., 0., .5)]}


def eps_water(lam, t):
    f = 29.9792458 / lam                                  # GHz
    es = (37088.6 - 82.168 * t) / (421.854 + t)
    e1 = 5.723 + t * (.022379 - t * 7.1237e-4)
    f1 = (45 + t) / (5.0478 + t * (-.070315 + t * 6.0059e-4))
    ei = 3.6143 + .028841 * t
    f2 = (45 + t) / (.13652 + t * (.0014825 + t * 2.4166e-4))
    return (es - e1) / (1 - 1j * f / f1) + (e1 - ei) / (1 - 1j * f / f2) + ei


def index(phase, lam, t, rho):
    if phase == "water":
        return np.sqrt(eps_water(lam, t))
    return np.sqrt(1 + 2 * rho + 1j * 8e-4 * (.52 * rho + .62 * rho * rho))


def mie(m, x):
    """Extinction, scattering and backscattering efficiencies and asymmetry of a sphere (Bohren and Huffman, appendix A)."""
    stop = int(x + 4 * x ** (1 / 3) + 4)
    y = m * x
    n0 = int(max(stop, abs(y))) + 30
    D = np.zeros(n0 + 1, complex)
    for n in range(n0, 0, -1):
        D[n - 1] = n / y - 1 / (D[n] + n / y)
    from scipy.special import spherical_jn, spherical_yn
    n = np.arange(stop + 2)
    psi, chi = x * spherical_jn(n, x), -x * spherical_yn(n, x)
    xi = psi - 1j * chi
    a, b = np.zeros(stop + 2, complex), np.zeros(stop + 2, complex)
    for k in range(1, stop + 1):
        p, q = D[k] / m + k / x, m * D[k] + k / x
        a[k] = (p * psi[k] - psi[k - 1]) / (p * xi[k] - xi[k - 1])
        b[k] = (q * psi[k] - psi[k - 1]) / (q * xi[k] - xi[k - 1])
    k = np.arange(1, stop + 1)
    w = 2 * k + 1
    ext = 2 / x ** 2 * np.sum(w * (a + b)[k].real)
    sca = 2 / x ** 2 * np.sum(w * (abs(a[k]) ** 2 + abs(b[k]) ** 2))
    back = abs(np.sum(w * (-1.) ** k * (a - b)[k])) ** 2 / x ** 2
    g = 4 / x ** 2 / sca * np.sum(k * (k + 2) / (k + 1) * (a[k] * a[k + 1].conj() + b[k] * b[k + 1].conj()).real + w / k / (k + 1) * (a[k] * b[k].conj()).real)
    return ext, sca, back, g


def small(m, x):
    """Rayleigh's limit."""
    L = (m * m - 1) / (m * m + 2)
    sca = 8 / 3 * abs(L) ** 2 * x ** 4
    return sca + 4 * x * L.imag, sca, 1.5 * sca, 0.


def units(tier):
    q = tier == "quick"
    u = [{"kind": "index", "phase": p, "q": q} for p in ("water", "ice")]
    u += [{"kind": "scat", "phase": p, "lam": l, "cond": c, "len": 3 if q else 4}
          for p in ("water", "ice") for l in (LAM if q else LAM2) for c in (COND if q else COND2)[p]]
    u += [{"kind": "grids", "phase": p, "lam": l} for p in ("water", "ice") for l in (.316, .86, 10.)]
    return u + [{"kind": "drop"}]


def close(x, w, tol=1e-5, floor=0.):
    return abs(x - w) <= tol * abs(w) + floor


def want(phase, lam, cond, d, memo):
    k = (phase, lam, tuple(cond), d)
    if k not in memo:
        t, p, rho = cond
        air = 1 + 77.6e-6 * p / (t + 273.15)
        m = index(phase, lam, t, rho) / air
        x = np.pi * d * 1e-4 / (lam / air)
        memo[k] = [mie(m, x)] + ([small(m, x)] if x <= .0505 else [])
    return memo[k]


def judge(rec, u, ds, phase, lam, cond, diams, memo, case, seen):
    """Every value of one returned dataset."""
    n = len(diams)
    names = ("ext_eff", "scat_eff", "qabs", "g", "qpr", "backscat_eff", "qratio", "alpha_p", "beta_p", "scat_p", "compre_real", "compre_im", "size_parameter", "p_diam", "wavelength")
    for v in names:
        if not rec.check(v in ds.data_vars and ds[v].dims == ("index",) and ds[v].shape == (n,), "shape:" + v, "%s is not a variable over the particles" % v, case):
            return
        wu = {"alpha_p": "meters^2", "beta_p": "meters^2", "scat_p": "meters^2", "p_diam": "meters", "wavelength": "microns"}.get(v)
        rec.check(wu is None or ds[v].attrs.get("units") == wu, "units:" + v, "%s is labelled %r" % (v, ds[v].attrs.get("units")), case)
    for v, w in (("alpha_p", "ext"), ("beta_p", "back"), ("scat_p", "scat")):
        rec.check(w in ds[v].attrs.get("long_name", "").lower(), "label:" + v, "%s is labelled %r" % (v, ds[v].attrs.get("long_name")), case)
    got = {v: np.asarray(ds[v].values, float) for v in names}
    mm = index(phase, lam, cond[0], cond[2])
    for i, d in enumerate(diams):
        c = dict(case, particle=i, diameter=d)
        g = {v: float(got[v][i]) for v in names}
        rec.step()
        key = (phase, lam, tuple(cond), d)
        if key not in seen:
            seen.add(key)
            rec.state(key)
        rec.check(close(g["p_diam"], d * 1e-6, 1e-9), "p_diam", "the diameter is %r instead of %r" % (g["p_diam"], d * 1e-6), c)
        rec.check(close(g["wavelength"], lam * 1e4, 1e-9), "wavelength", "the wavelength is %r instead of %r" % (g["wavelength"], lam * 1e4), c)
        rec.check(close(g["size_parameter"], np.pi * d * 1e-4 / lam, 6e-4), "size", "the size parameter is %r instead of %r" % (g["size_parameter"], np.pi * d * 1e-4 / lam), c)
        rec.check(close(g["compre_real"], mm.real, 6e-4) and close(g["compre_im"], mm.imag, 6e-4), "compre", "the refractive index is %r %r instead of %r" % (g["compre_real"], g["compre_im"], mm), c)
        area = np.pi / 4 * (d * 1e-6) ** 2
        for e, s in (("ext_eff", "alpha_p"), ("scat_eff", "scat_p"), ("backscat_eff", "beta_p")):
            rec.check(close(g[s], g[e] * area, 1e-9), "cross:" + s, "%s is %r instead of %s x area %r" % (s, g[s], e, g[e] * area), c)
        rec.check(close(g["qabs"], g["ext_eff"] - g["scat_eff"], 1e-9, 1e-12 * g["ext_eff"]), "qabs", "absorption is not extinction less scattering", c)
        rec.check(close(g["qpr"], g["ext_eff"] - g["scat_eff"] * g["g"], 1e-9), "qpr", "the radiation pressure efficiency is not ext - g scat", c)
        rec.check(close(g["qratio"], g["backscat_eff"] / g["scat_eff"], 1e-6), "qratio", "qratio is not backscatter/scattering", c)
        ok = [all((close(g["ext_eff"], w[0], 1e-5, 1e-11), close(g["scat_eff"], w[1], 1e-5), close(g["backscat_eff"], w[2], 1e-5, 1e-7 * w[1]), abs(g["g"] - w[3]) < 1e-5))
              for w in want(phase, lam, cond, d, memo)]
        rec.check(any(ok), "mie", "extinction, scattering, backscatter and asymmetry %r instead of %r" % (
            [g[v] for v in ("ext_eff", "scat_eff", "backscat_eff", "g")], [list(w) for w in want(phase, lam, cond, d, memo)]), c)
        rec.outcome(("mie", ok[0], round(np.log10(g["ext_eff"]), 1)))


def call(phase, diams, lam, cond):
    import emc2
    t, p, rho = cond
    if phase == "water":
        return emc2.scattering.scat_properties_water(diams, lam, t, p)
    return emc2.scattering.scat_properties_ice(diams, lam, temperature=t, pressure=p, rho_d=rho)


def run_unit(u, rec):
    import emc2
    import xarray as xr
    S = emc2.scattering
    if u["kind"] == "index":
        return run_index(u, rec, S)
    if u["kind"] == "drop":
        D = np.linspace(0., 9., 181)
        w = [.9951 + d * (.0251 + d * (-.03644 + d * (.005303 - d * .0002492))) for d in D]
        a = np.asarray(S.brandes(D), float)
        for i, d in enumerate(D):
            rec.state(("drop", d))
            rec.check(close(a[i], w[i], 1e-9) and close(float(S.brandes(float(d))), w[i], 1e-9), "brandes", "axis ratio %r instead of %r" % (a[i], w[i]), {"D": d})
        rec.sample({"kind": "drop", "n": len(D)})
        return
    memo, seen = {}, set()
    if u["kind"] == "scat":
        seqs = itertools.chain.from_iterable(itertools.product(DIAM, repeat=k) for k in range(1, u["len"] + 1))
        for j, s in enumerate(seqs):
            d = np.array(s)
            arg = d if j % 2 == 0 else xr.DataArray(d, dims="index", coords={"index": np.arange(len(d)) + 3})
            keep = arg.copy()
            case = dict(u, diams=list(s), container=type(arg).__name__)
            ds = call(u["phase"], arg, u["lam"], u["cond"])
            rec.trace()
            rec.check(np.array_equal(arg, keep), "input changed", "the diameters passed were changed", case)
            judge(rec, u, ds, u["phase"], u["lam"], u["cond"], s, memo, case, seen)
        rec.sample(dict(u, sequences=j + 1))
        return
    tab = emc2.core.instruments.KAZR("nsa").mie_table["cl" if u["phase"] == "water" else "ci"].p_diam * 1e6
    for name, d in (("linear", np.linspace(5., 8000., 60)), ("log", np.logspace(0, 4, 60)), ("falling", np.linspace(6000., 10., 40)), ("integers", np.arange(1, 40) * 100), ("table", tab)):
        for cond in COND[u["phase"]]:
            ds = call(u["phase"], d, u["lam"], cond)
            rec.trace()
            judge(rec, u, ds, u["phase"], u["lam"], cond, [float(x) for x in np.asarray(d)], memo, dict(u, grid=name, cond=cond), seen)
    # defaults: 0 C, 1013 hPa, 0.5 g cm-3
    d = np.array([20., 900.])
    ds = S.scat_properties_water(d, u["lam"]) if u["phase"] == "water" else S.scat_properties_ice(d, u["lam"])
    judge(rec, u, ds, u["phase"], u["lam"], COND[u["phase"]][0], [20., 900.], memo, dict(u, grid="defaults"), seen)
    rec.sample(dict(u))


def run_index(u, rec, S):
    lams = sorted(set(LAM2)) if u["q"] else [.1 * 1.35 ** k for k in range(20)]
    ts = [-35., -20., -10., 0., 5., 15., 25., 30., 40.] if u["q"] else [-38. + 6 * k for k in range(15)]
    rhos = [None] if u["phase"] == "water" else [.05, .1, .3, .5, .7, .917]
    for lam, t, rho in itertools.product(lams, ts if rho_none(rhos) else ts[:5], rhos):
        case = dict(phase=u["phase"], lam=lam, t=t, rho=rho)
        m = complex(S.calc_microwave_ref_index(lam, t) if rho is None else S.calc_microwave_ref_index_ice(lam, t, rho))
        w = complex(index(u["phase"], lam, t, rho))
        rec.state(("m", u["phase"], lam, t, rho))
        rec.step()
        rec.check(close(m, w, 1e-7) and m.imag > 0, "index", "the refractive index is %r instead of %r" % (m, w), case)
        if rho is None:
            v = np.asarray(S.calc_microwave_ref_index(np.array([lam, 2 * lam]), t))
            rec.check(close(v[0], w, 1e-7) and close(v[1], complex(index("water", 2 * lam, t, None)), 1e-7), "index:array", "the index over an array of wavelengths differs", case)
    if u["phase"] == "water":
        # Gunn and East (1954): wavelength (cm), temperature, n, k
        for lam, t, n, k in ((10., 20., 8.88, .63), (3.21, 20., 8.14, 2.00), (1.24, 20., 6.15, 2.86), (.62, 20., 4.44, 2.59), (10., 0., 8.99, 1.47), (3.21, 0., 7.14, 2.89), (1.24, 0., 4.75, 2.77), (.62, 0., 3.45, 2.04)):
            m = complex(S.calc_microwave_ref_index(lam, t))
            rec.state(("ge", lam, t))
            rec.check(abs(m.real / n - 1) < .04 and abs(m.imag / k - 1) < .17, "gunn-east", "%r instead of about %r" % (m, (n, k)), dict(lam=lam, t=t))
        m = complex(S.calc_microwave_ref_index(3.))
        rec.check(close(m, complex(index("water", 3., 0., None)), 1e-7), "index:default", "the default temperature is not 0 C", {})
    else:
        m = complex(S.calc_microwave_ref_index_ice(3.))
        rec.check(close(m, complex(index("ice", 3., 0., .5)), 1e-7), "index:default", "the default density is not 0.5", {})
    rec.sample(dict(u, n=len(lams)))


def rho_none(r):
    return r == [None]
