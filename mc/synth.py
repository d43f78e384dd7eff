"""Small closed models and instruments on which the real EMC2 code is driven.

The Model is a genuine emc2.core.Model whose dataset we fill; the instruments are genuine
emc2.core.Instrument objects carrying tiny, analytically defined look-up tables.
"""
import numpy as np
import xarray as xr

from . import env

HYD = ("cl", "ci", "pl", "pi")
RHO = {"cl": 1000., "ci": 500., "pl": 1000., "pi": 250., "sn": 250., "gr": 400., "ha": 900., "pir": 350., "pid": 200., "pif": 600.}
LRATIO = {"cl": 18., "ci": 24., "pl": 5.5, "pi": 24.0}
LDR = {"cl": 0.03, "ci": 0.35, "pl": 0.1, "pi": 0.40}
VA = {"cl": 3e7, "ci": 700., "pl": 841.997, "pi": 11.72}
VB = {"cl": 2., "ci": 1., "pl": 0.8, "pi": 0.41}


def arr(x, T, H):
    """Broadcast to a float (T, H) array (None -> zeros)."""
    if x is None:
        return np.zeros((T, H))
    return np.array(np.broadcast_to(np.asarray(x, dtype=float), (T, H)))


def make_model(T, H, strat_frac=None, conv_frac=None, q_strat=None, q_conv=None, N=None, re=None,
               strat_frac_rad=None, conv_frac_rad=None, process_conv=True, z=None, p=None, t=None, qv=None,
               relvar=None, hyd=HYD, rad="ModelE", mcphys="MG2", fluffy=True, units=None, model_name="Synthetic",
               time_dim="time", height_dim="height", cls=None, rhoa_corr=False, extra=None):
    emc2 = env.setup()
    from emc2.core.instrument import ureg
    Base = cls or emc2.core.Model
    m = Base()
    u = {"z": "meter", "p": "hPa", "t": "kelvin"}
    u.update(units or {})
    if z is None:
        z = np.tile(500. + 1000. * np.arange(H), (T, 1))
    z = arr(z, T, H)
    if p is None:
        p = 1000. * np.exp(-z / 8000.)
    if t is None:
        t = 290. - 6.5e-3 * z
    if qv is None:
        qv = 5e-3 * np.exp(-z / 2500.)
    d = {}
    dims = (time_dim, height_dim)

    def put(name, v, **attrs):
        d[name] = xr.DataArray(arr(v, T, H), dims=dims, attrs=attrs)
    put("z", z, units=u["z"])
    put("p_3d", p, units=u["p"])
    put("t", t, units=u["t"])
    put("q", qv, units="kg/kg")
    sf, cf = strat_frac or {}, conv_frac or {}
    sfr, cfr = strat_frac_rad or {}, conv_frac_rad or {}
    qs, qc, NN, RE = q_strat or {}, q_conv or {}, N or {}, re or {}
    for h in hyd:
        put("fs_" + h, sf.get(h))
        put("fc_" + h, cf.get(h))
        put("fsr_" + h, sfr.get(h, sf.get(h)))
        put("fcr_" + h, cfr.get(h, cf.get(h)))
        put("qs_" + h, qs.get(h))
        put("qc_" + h, qc.get(h))
        put("N_" + h, NN.get(h))
        put("re_" + h, RE.get(h, 20.))
        put("rec_" + h, RE.get(h + "_conv", RE.get(h, 20.)))
    if relvar is not None:
        put("relvar", relvar)
        m.strat_relvar_name = "relvar"
    for k, v in (extra or {}).items():
        put(k, v)
    d[time_dim] = xr.DataArray(np.arange(T), dims=(time_dim,))
    m.ds = xr.Dataset(d)
    m.z_field, m.p_field, m.T_field, m.q_field = "z", "p_3d", "t", "q"
    m.time_dim, m.height_dim = time_dim, height_dim
    m.hyd_types = list(hyd)
    m.strat_frac_names = {h: "fs_" + h for h in hyd}
    m.conv_frac_names = {h: "fc_" + h for h in hyd}
    m.strat_frac_names_for_rad = {h: "fsr_" + h for h in hyd}
    m.conv_frac_names_for_rad = {h: "fcr_" + h for h in hyd}
    m.q_names_stratiform = {h: "qs_" + h for h in hyd}
    m.q_names_convective = {h: "qc_" + h for h in hyd}
    m.N_field = {h: "N_" + h for h in hyd}
    m.strat_re_fields = {h: "re_" + h for h in hyd}
    m.conv_re_fields = {h: "rec_" + h for h in hyd}
    m.Rho_hyd = {h: RHO[h] * ureg.kg / ureg.m ** 3 for h in hyd}
    m.fluffy = ({h: 0.5 * ureg.dimensionless for h in hyd if not h.endswith("l")} if fluffy else None)
    m.lidar_ratio = {h: LRATIO.get(h, 24.) * ureg.dimensionless for h in hyd}
    m.LDR_per_hyd = {h: LDR.get(h, 0.4) * 1 / (ureg.kg / (ureg.m ** 3)) for h in hyd}
    m.vel_param_a = {h: VA.get(h, 11.72) for h in hyd}
    m.vel_param_b = {h: VB.get(h, 0.41) * ureg.dimensionless for h in hyd}
    m._add_vel_units()
    m.mcphys_scheme, m.rad_scheme_family, m.model_name = mcphys, rad, model_name
    m.process_conv = process_conv
    if rhoa_corr:
        m.Vd_rhoa_scaling_ref = {"cl": 1.0, "ci": 1.0, "pl": 1.1, "pi": 1.15}
    m.ds["rho_a"] = m.ds["p_3d"] * (1e2 if u["p"] == "hPa" else 1.) / (m.consts["R_d"] * m.ds["t"])
    m.ds["rho_a"].attrs["units"] = "kg / m ** 3"
    return m


# ---- instruments ---------------------------------------------------------------------------------
DIAM = {"cl": np.linspace(2e-6, 60e-6, 24), "pl": np.linspace(1e-4, 4e-3, 24),
        "ci": np.linspace(1e-5, 4e-4, 24), "pi": np.linspace(1e-4, 5e-3, 24)}


def _single(d, fac):
    geo = np.pi / 4 * d ** 2
    return xr.Dataset({"p_diam": ("n", d), "p_diam_eq_V": ("n", d), "beta_p": ("n", fac[0] * geo * (1 + 50 * d)),
                       "alpha_p": ("n", fac[1] * geo)})


def _bulk(b, e):
    r = np.array([1., 10., 50., 200., 1000.])
    return xr.Dataset({"r_e": ("n", r), "Q_back": ("n", b * (1 + r / 500.)), "Q_ext": ("n", e * (1 + r / 1000.))})


def _bulk2d(b, e):
    """mu-lambda LUT with the layout of the CESM_liq tables ("mu" and "lambda" over a rectangle)."""
    mu = np.array([2., 5., 8., 12., 15.])
    lam = np.geomspace(1e3, 1e6, 7)
    M, L = np.meshgrid(mu, lam)
    return xr.Dataset({"mu": ("mu", mu), "lambdas": ("lambdas", lam), "lambda": (("lambdas", "mu"), L),
                       "Q_back": (("lambdas", "mu"), b * (1 + M / 20. + np.log10(L) / 10.)),
                       "Q_ext": (("lambdas", "mu"), e * (1 + M / 40.))})


def make_instrument(kind, OD_from_sfc=True, name=None):
    emc2 = env.setup()
    from emc2.core.instrument import ureg
    if kind == "radar":
        i = emc2.core.Instrument(frequency=34.86 * ureg.GHz)
        i.instrument_class, i.instrument_str = "radar", name or "SRAD"
        i.K_w, i.eps_liq, i.Z_min_1km = 0.88, (5.489262 + 2.8267679j) ** 2, -51.5
        fac, bk, ex = (0.3, 0.5), 0.02, 0.6
        fac_by = {"cl": (0.3, 0.5), "pl": (0.7, 0.9), "ci": (0.2, 0.25), "pi": (0.5, 0.4)}
    else:
        i = emc2.core.Instrument(wavelength=0.532 * ureg.micrometer)
        i.instrument_class, i.instrument_str = "lidar", name or "HSRL"
        i.ext_OD, i.eta = 4., 1.
        fac_by = {"cl": (0.1, 2.0), "pl": (0.3, 2.1), "ci": (0.06, 1.9), "pi": (0.08, 2.2)}
        bk, ex = 0.1, 2.0
        L = [0., 0.1, 0.100001, 0.2, 0.200001, 1.]
        i.beta_p_phase_thresh = [
            {'class': 'ice', 'class_ind': 2, 'LDR': [0., 0.1, 0.100001, 0.2, 1.],
             'beta_p': [2e-5, 2e-5, 2e-6, 5e-7, 5e-7]},
            {'class': 'undef2', 'class_ind': 4, 'LDR': L, 'beta_p': [2e-5, 2e-5, 2e-6, 9e-6, 1., 1.]},
            {'class': 'undef1', 'class_ind': 3, 'LDR': L, 'beta_p': [2e-5, 2e-5, 1.41421e-4, 1e-3, 1., 1.]},
            {'class': 'liquid', 'class_ind': 1, 'LDR': [0., 0.2, 0.200001, 1.], 'beta_p': [2e-5, 1e-3, 1., 1.]}]
    i.OD_from_sfc = OD_from_sfc
    for h, d in DIAM.items():
        i.mie_table[h] = _single(d, fac_by[h])
    i.scat_table["E3_ice"] = _single(DIAM["ci"], (fac_by["ci"][0] * 1.3, fac_by["ci"][1] * 1.1))
    i.scat_table["CESM_ice"] = _single(DIAM["pi"], (fac_by["pi"][0] * 1.3, fac_by["pi"][1] * 1.1))
    i.bulk_table["E3_ice"] = _bulk(bk * .6, ex * .9)
    i.bulk_table["E3_liq"] = _bulk(bk, ex)
    i.bulk_table["mie_ice_E3_PSD"] = _bulk(bk * .8, ex * .95)
    i.bulk_table["CESM_ice"] = _bulk(bk * .5, ex * .85)
    i.bulk_table["mie_ice_CESM_PSD"] = _bulk(bk * .7, ex * .97)
    i.bulk_table["CESM_liq"] = _bulk2d(bk, ex)
    return i
