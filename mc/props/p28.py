"""P28: every model class carries the microphysics of its scheme: a loaded file simulates exactly like a bare Model configured by hand with the published values."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import xarray as xr

from .. import chain, env, scene
from . import p19, p24

BOUNDS = {
    "quick": "all model classes x all their options (ModelE; E3SMv1 x 2 ice x 2 rain options; CESM2; E3SMv3 with MG2 and P3, with and without rain, hybrid scattering; WRF Morrison, "
             "MG, MG2 x graupel/hail, NSSL, NU-WRF; DHARMA with one and two precipitating ice classes) x order of construction (alone, after every other class) x KAZR and HSRL x "
             "radiation / microphysics / empirical logic x stratiform and convective, 4 subcolumns, 2 columns of 6 levels",
    "thorough": "as quick with 7 subcolumns, 5 columns and CSAPR and RL",
}
RULE = "one execution = one simulation of one loaded file; every output field is compared with that of a bare Model configured from the table of published values"
ASSUMPTIONS = ["the published parameters are those of the schemes' papers, as cited in the code and its documentation (Morrison and Gettelman 2008, Morrison et al. 2009, Mansell et al. "
               "2010, Morrison and Milbrandt 2015, Ikawa and Saito 1990, Liu and Orville 1969, Locatelli and Hobbs 1974, Matson and Huggins 1980)",
               "the fields of the loaded files hold what P24 judges", "wrf-python is replaced as in P24"]
K = 6
HY = p24.HY
# kg/m3, lidar ratio (sr), linear depolarisation coefficient (m3/kg), fall speed coefficient (SI) and exponent, reference air density of the fall speed (kg/m3)
RHO = {"cl": 1000., "ci": 500., "pl": 1000., "pi": 250.}
LR = {"cl": 18., "ci": 24., "pl": 5.5}
LDR = {"cl": .03, "ci": .35, "pl": .1}
VA = {"cl": 3e7, "ci": 700., "pl": 841.997, "pi": 11.72, "pir": 11.72}
VB = {"cl": 2., "ci": 1., "pl": .8, "pi": .41, "pir": .41}
VR = {"cl": 1., "ci": 1., "pl": 1.1, "pi": 1.15, "pir": 1.15}


def configs(tier):
    c = [("ModelE", {})]
    c += [(k, kw) for k, kw in p24.CONF]
    c += [("E3SMv3", {"use_hybrid_scat": 1}), ("E3SMv3", {"use_hybrid_scat": 2})]
    for s in ("morrison", "MG2", "mg", "nssl", "NSSL"):
        for gr, ha, nu in itertools.product((False, True), (False, True), (False, True)):
            if (s.lower() == "nssl" and gr) or (ha and not gr) or (nu and (s != "morrison" or gr)):
                continue
            c.append(("WRF", {"mcphys_scheme": s, "include_gr_class": gr, "gr_class_is_hail": ha, "NUWRF": nu}))
    c += [("DHARMA", {"single_pi_class": True}), ("DHARMA", {"single_pi_class": False})]
    return c


def units(tier):
    ins = (("KAZR", "HSRL"),) if tier == "quick" else (("KAZR", "HSRL"), ("CSAPR", "RL"))
    return [{"i": i, "cls": c, "options": kw, "inst": list(p), "tier": tier} for p in ins for i, (c, kw) in enumerate(configs(tier))]


# ---------------------------------------------------------------- expected configuration
def expect(cls, kw):
    """The configuration of a model class as published; field entries name variables of the file ("0": nothing of the kind)."""
    e = {"conv": False, "relvar": None, "vr": dict(VR), "mu": {}, "la": {}, "p": "p_3d", "rho": dict(RHO), "va": dict(VA), "vb": dict(VB), "family": "ModelE", "scheme": "MG2"}
    if cls == "ModelE":
        hyd = list(HY)
        e.update(conv=True, name="ModelE3", T="t", z="z", qv="q", height="p", time="time")
        e["N"] = {h: "n" + h for h in hyd}
        e["q"], e["qc"] = {h: "q" + h for h in hyd}, {h: "Q%smc" % h.upper() for h in hyd}
        e["f"], e["fc"] = {h: "cldss" + h for h in hyd}, {h: "cldmc" + h for h in hyd}
        e["fr"], e["fcr"] = {h: "cldssr" for h in hyd}, {"cl": "cldmcr", "ci": "cldmcr", "pl": "cldmcpl", "pi": "cldmcpi"}
        e["re"], e["rec"] = {h: "re_ss" + h for h in hyd}, {h: "re_mc" + h for h in hyd}
        e["fluffy"] = .5
    elif cls in ("E3SMv1", "CESM2", "E3SMv3"):
        hyd = p24.hyds(cls, kw)
        e.update(name=cls, T="T", z="Z3", qv="Q", height="lev", time="time", family="CESM", relvar="RELVAR", fluffy=1.)
        e["mu"], e["la"] = {"cl": "mu_cloud"}, {"cl": "lambda_cloud"}
        e["N"] = {"cl": "NUMLIQ", "ci": "NUMICE", "pl": "NUMRAI", "pi": "NUMSNO"}
        e["q"] = {"cl": "CLDLIQ", "ci": "CLDICE", "pl": "RAINQM", "pi": "SNOWQM"}
        e["f"] = {"cl": "FREQL", "ci": "FREQI", "pl": "FREQR", "pi": "FREQS"}
        e["fr"] = {"cl": "CLOUD", "ci": "CLOUD", "pl": "FREQR", "pi": "FREQS"}
        e["re"] = {"cl": "AREL", "ci": "AREI", "pl": "ADRAIN", "pi": "ADSNOW"}
        for k in ("qc", "fc", "fcr", "rec"):
            e[k] = {h: "0" for h in hyd}
        if cls == "E3SMv3" and kw.get("mcphys_scheme", "P3") == "P3":
            e.update(scheme="P3", family="P3", vr={"ci": .8254, "pl": 1.1})
            e["va"]["ci"] = e["vb"]["ci"] = None
            e["mu"]["ci"], e["la"]["ci"] = "mu_ice", "lambda_ice"
            e["p3"] = {"q_rim_name": "CLDRIM", "rim_vol_name": "BVRIM", "in_cld_Ni_name": "in_cld_Ni", "N0_ice_name": "N0_norm_ice", "use_hybrid_scat": kw.get("use_hybrid_scat", False)}
    elif cls == "WRF":
        nssl = kw["mcphys_scheme"].lower() == "nssl"
        hyd = list(p24.NQ) if nssl else [h for h in p24.WQ if h != "gr" or kw["include_gr_class"]]
        e.update(name="WRF", scheme=kw["mcphys_scheme"], T="T", z="Z", qv="QVAPOR", p="pressure", height="bottom_top", time="Time", fluffy=.5 if nssl else 1.)
        e["N"] = {h: (p24.NQ if nssl else p24.WQ)[h][1] for h in hyd}
        e["q"], e["f"] = {h: "q%ss" % h for h in hyd}, {h: "strat_%s_frac" % h for h in hyd}
        e["fr"] = e["f"]
        e["qc"] = e["fc"] = e["fcr"] = {h: "0" for h in hyd}
        e["re"] = e["rec"] = {h: p24.NQ[h][2] for h in hyd} if nssl else None
        if nssl:
            e["vr"] = {}
            e["rho"].update(ci=459., sn=100., gr="RHO_GRAUPEL", ha="RHO_HAIL")
            e["va"].update(sn=12.42, gr=330., ha=330.)
            e["vb"].update(sn=.8, gr=.8, ha=.8)
        else:
            hail = kw["gr_class_is_hail"]
            e["rho"]["gr"], e["va"]["gr"], e["vb"]["gr"] = (900., 114.5, .5) if hail else (400., 19.3, .37)
            if hail:
                e["vr"]["gr"] = 1.23
    else:
        hyd = list(HY) + ([] if kw["single_pi_class"] else ["pir"])
        e.update(name="DHARMA", scheme="MG", conv=True, T="t", z="z", qv="q", p="p", height="hgt", time="dom_col", fluffy=.5)
        e["rho"].update(pi=100., pir=100.)
        e["N"], e["q"] = {h: "n" + h for h in hyd}, {h: "q" + h for h in hyd}
        e["f"] = e["fr"] = {h: "strat_%s_frac" % h for h in hyd}
        e["re"] = {h: "re_strat_" + h for h in hyd}
        e["qc"] = e["fc"] = e["fcr"] = e["rec"] = {h: "0" for h in hyd}
    e["hyd"] = hyd
    return e


ROLES = {"N": "N_field", "q": "q_names_stratiform", "qc": "q_names_convective", "f": "strat_frac_names", "fc": "conv_frac_names", "fr": "strat_frac_names_for_rad",
         "fcr": "conv_frac_names_for_rad", "re": "strat_re_fields", "rec": "conv_re_fields"}


# ---------------------------------------------------------------- files
def profile(down):
    z = np.array([200., 800., 1700., 3000., 5200., 8000.])
    T = 290. - 6.5e-3 * z
    p = 1000. * np.exp(-z / 8000.)
    q = .005 * np.exp(-z / 2000.)
    return [a[::-1] if down else a for a in (z, T, p, q)]


def edit(path, fields, dim, attrs=(), scale=(), extra=None):
    """Replace profile fields by plausible ones (with a small shift from column to column) and scale others."""
    with xr.open_dataset(path) as ds:
        ds = ds.load()
    for n, a in fields.items():
        old = ds[n]
        b = xr.DataArray(a, dims=dim).broadcast_like(old).transpose(*old.dims)
        td = [d for d in old.dims if d != dim][0]
        b = b * (1 + 1e-3 * xr.DataArray(np.arange(old.sizes[td]), dims=td))
        ds[n] = b.transpose(*old.dims).assign_attrs(old.attrs)
    for n, k, v in attrs:
        ds[n].attrs[k] = v
    for n, f in scale:
        if n in ds:
            a = dict(ds[n].attrs)
            ds[n] = ds[n] * f
            ds[n].attrs = a
    if extra:
        extra(ds)
    ds.to_netcdf(path + "x")
    return path + "x"


def write(u, d, cls, kw, T, lat=None, lon=None):
    path = os.path.join(d, "a.nc")
    hd = u.get("hd", "p")                                               # ModelE: name of the vertical dimension
    ncol = kw.get("time_dim") == "ncol"                                 # E3SM, CESM2: name of the time dimension
    z, t, p, q = profile(cls in ("E3SMv1", "CESM2", "E3SMv3"))
    if cls == "ModelE":
        p24.modele_file(path, T, lat, lon, K, ("time",) + (("lat", "lon") if lat else ()) + (hd,), hd, p24.stamps(T))
        sc = []
        for h in HY:
            sc += [("cldmc" + h, .05), ("cldss" + h, .15), ("re_mc" + h, 20.), ("re_ss" + h, 20.), ("q" + h, 1e-5), ("Q%smc" % h.upper(), 1e-5)]
        return edit(path, {"z": z, "t": t, "p_3d": p, "q": q}, hd, scale=sc + [("cldmcr", .3), ("cldssr", .6)])
    if cls == "WRF":
        p24.wrf_file(path, T, 1, 1, K, kw["mcphys_scheme"].lower() == "nssl")
        def own(ds):                                                # every class is absent from cells of its own
            for j, n in enumerate(c[0] for c in (p24.NQ if kw["mcphys_scheme"].lower() == "nssl" else p24.WQ).values()):
                v = np.where(np.arange(ds[n].size) % 6 == j, 0., .4e-4 + .1e-4 * j).reshape(ds[n].shape)
                ds[n] = (ds[n].dims, v, ds[n].attrs)
        return edit(path, {"X_Z": z, "X_TK": t, "PB": p * 100., "P": 0 * p, "QVAPOR": q}, "bottom_top", extra=own)
    if cls == "DHARMA":
        p24.dharma_file(path, T, lat or 1, lon or 1, K, **({"tdim": "time", "times": p24.stamps(T)} if lat else {}))
        sc = []
        for h in HY + ("pir",):
            sc += [("q" + h, 1e-5), ("strat_%s_frac" % h, .1), ("re_strat_" + h, 20.)]
        return edit(path, {"z": z, "t": t, "p": p, "q": q}, "hgt", scale=sc)
    v, A, B, ps = p24.e3sm_values(p24.Tag(T, lat, lon, K), K)
    p24.e3sm_file(path, v, A, B, ps, ("ncol" if ncol else "time", "lev") + (("lat", "lon") if lat else ()), "ncol" if ncol else "time",
                  np.arange(T) / 48. if ncol else p24.stamps(T), lat=lat, lon=lon)

    def hybrid(ds):
        ds["hyam"][:] = 0.
        ds["hybm"][:] = p / 1000.
    return edit(path, {"Z3": z, "T": t, "Q": q}, "lev", attrs=(("T", "units", "K"), ("Z3", "units", "m")), extra=hybrid)


def build(cls, kw, path, lidar):
    import emc2
    if cls == "WRF":
        p24.wrf_module(path)
    o = dict(kw)
    if cls == "E3SMv3" and o.get("mcphys_scheme", "P3") == "P3":
        o["instrument"] = lidar
    with env.quiet():
        return getattr(emc2.core.model, cls)(path, **o)


def bare(m, e):
    """A bare Model with the published configuration and the fields of the loaded file."""
    import emc2
    from emc2.core.instrument import ureg
    g = emc2.core.Model()
    hyd = e["hyd"]
    one, rho, m_s = ureg.dimensionless, ureg.kg / ureg.m ** 3, ureg.meter
    g.ds = m.ds.copy(deep=True)
    g.ds["__none"] = g.ds[e["T"]] * 0.
    if any(isinstance(e["rho"].get(h), str) for h in hyd):
        g.variable_density = {h: e["rho"][h] for h in hyd if isinstance(e["rho"][h], str)}
    g.Rho_hyd = {h: "variable" if isinstance(e["rho"].get(h), str) else e["rho"].get(h, 100.) * rho for h in hyd}
    g.fluffy = {h: e["fluffy"] * one for h in hyd if h[-1] != "l"}
    g.lidar_ratio = {h: LR.get(h, 24.) * one for h in hyd}
    g.LDR_per_hyd = {h: LDR.get(h, .4) / rho for h in hyd}
    g.vel_param_b = {h: None if e["vb"][h] is None else e["vb"][h] * one for h in hyd}
    g.vel_param_a = {h: None if e["va"][h] is None else e["va"][h] * m_s ** (1 - e["vb"][h]) / ureg.second for h in hyd}
    g.Vd_rhoa_scaling_ref = {h: v for h, v in e["vr"].items() if h in hyd}
    for k, a in ROLES.items():
        if e.get(k):
            setattr(g, a, {h: "__none" if e[k].get(h, "0") == "0" or h not in hyd else e[k][h] for h in list(HY) + [x for x in hyd if x not in HY]})
    g.p_field, g.T_field, g.z_field, g.q_field = e["p"], e["T"], e["z"], e["qv"]
    g.time_dim, g.height_dim = m.time_dim, m.height_dim
    g.mcphys_scheme, g.rad_scheme_family, g.model_name = e["scheme"], e["family"], e["name"]
    g.process_conv, g.strat_relvar_name = e["conv"], e["relvar"]
    g.hyd_types = list(hyd)
    g.ice_hyd_types = [h for h in hyd if h[-1] != "l"]
    if e["la"]:
        g.mu_field, g.lambda_field = {h: e["mu"].get(h) for h in hyd}, {h: e["la"].get(h) for h in hyd}
    if "p3" in e:
        g.p3_kws = dict(e["p3"])
        g.interpobj = m.interpobj
    return g


def mag(x):
    return None if x is None else x if isinstance(x, str) else float(getattr(x, "to_base_units", lambda: x)().magnitude if hasattr(x, "magnitude") else x)


def attributes(m, e, rec, case):
    hyd = e["hyd"]
    rec.check(list(m.hyd_types) == hyd, "classes", "classes are %s, expected %s" % (m.hyd_types, hyd), case)
    rec.check((m.mcphys_scheme, m.rad_scheme_family, bool(m.process_conv), m.strat_relvar_name) == (e["scheme"], e["family"], e["conv"], e["relvar"]), "scheme",
              "scheme, radiation family, convection and variance field are %s" % ((m.mcphys_scheme, m.rad_scheme_family, m.process_conv, m.strat_relvar_name),), case)
    for a, b in (("p_field", e["p"]), ("T_field", e["T"]), ("z_field", e["z"]), ("q_field", e["qv"])):
        rec.check(getattr(m, a) == b, "field:" + a, "%s is %r instead of %r" % (a, getattr(m, a), b), case)
    for h in hyd:
        rec.step()
        r = e["rho"].get(h, 100.)
        ice = h[-1] != "l"
        for nm, got, want in (("density", m.Rho_hyd.get(h), "variable" if isinstance(r, str) else r), ("lidar ratio", m.lidar_ratio.get(h), LR.get(h, 24.)),
                              ("depolarisation", m.LDR_per_hyd.get(h), LDR.get(h, .4)), ("fall speed exponent", m.vel_param_b.get(h, "missing"), e["vb"][h]),
                              ("fall speed coefficient", m.vel_param_a.get(h, "missing"), e["va"][h]), ("reference density", m.Vd_rhoa_scaling_ref.get(h), e["vr"].get(h)),
                              ("fluffiness", m.fluffy.get(h) if ice else None, e["fluffy"] if ice else None)):
            g = mag(got)
            ok = g == want if (isinstance(want, str) or want is None or isinstance(g, str) or g is None) else abs(g - want) <= 1e-9 * abs(want)
            rec.check(ok, "%s:%s" % (nm.replace(" ", "-"), h), lambda: "%s of %s is %r, published %r" % (nm, h, g, want), case)
        if isinstance(r, str):
            rec.check((m.variable_density or {}).get(h) == r, "variable-density:" + h, "variable density of %s is field %r" % (h, (m.variable_density or {}).get(h)), case)
        for k, a in ROLES.items():
            if not e.get(k) or (not e["conv"] and k in ("qc", "fc", "fcr", "rec")):
                continue
            n = getattr(m, a).get(h)
            if not rec.check(n in m.ds, "role:%s:%s" % (a, h), "%s of %s names %r, which the loaded data lack" % (a, h, n), case):
                continue
            got = m.ds[n].transpose(m.time_dim, m.height_dim).values
            want = 0. * got if e[k][h] == "0" else m.ds[e[k][h]].transpose(m.time_dim, m.height_dim).values
            rec.check(np.array_equal(np.nan_to_num(got), np.nan_to_num(want)), "role:%s:%s" % (a, h), "%s of %s holds another field than %s" % (a, h, e[k][h]), case)
        for a, d in (("mu_field", e["mu"]), ("lambda_field", e["la"])):
            n = (getattr(m, a) or {}).get(h)
            rec.check(n == d.get(h), "%s:%s" % (a, h), "%s of %s is %r instead of %r" % (a, h, n, d.get(h)), case)
    for h in (getattr(m, "variable_density", None) or {}):
        rec.check(isinstance(e["rho"].get(h), str), "variable-density:" + h, "class %s has no variable density" % h, case)


def logics(e, kind):
    L = [("micro", {}), ("rad", {"mie_for_ice": False}), ("rad", {"mie_for_ice": True}), ("emp", {})]
    if not e.get("re"):                                   # no effective radii: only what does without them
        L = [("micro", {})] + ([("emp", {})] if kind == "radar" else [])
    if "p3" not in e:
        L.insert(1, ("micro", {"mie_for_ice": True}))
    return L


def run_unit(u, rec):
    cls, kw = u["cls"], dict(u["options"])
    e = expect(cls, kw)
    N, T = (4, 2) if u["tier"] == "quick" else (7, 5)
    d = tempfile.mkdtemp(prefix="emc2-p28-")
    insts = {"radar": p19.instrument(u["inst"][0]), "lidar": p19.instrument(u["inst"][1])}
    try:
        path = write(u, d, cls, kw, T)
        case = {"cls": cls, "options": kw}
        others = []
        for i, (c, o) in enumerate(configs("quick")):
            if i % 4 == u["i"] % 4 and (c, o) != (cls, kw):          # models of the other classes are alive while this one is built and used
                os.makedirs(os.path.join(d, str(i)))
                others.append(build(c, o, write(u, os.path.join(d, str(i)), c, o, 1), insts["lidar"]))
        for history in ("alone", "beside"):
            # a repeated construction in one process is configured like the first
            m = build(cls, kw, path, insts["lidar"])
            attributes(m, e, rec, dict(case, history=history))
            if history == "alone":
                continue
            for kind in ("radar", "lidar"):
                for lg, o in logics(e, kind):
                    where = dict(case, instrument=kind, logic=lg, **o)
                    a, b = build(cls, kw, path, insts["lidar"]), None
                    rec.trace()
                    rec.state((cls, str(sorted(kw.items())), kind, lg, str(o)))
                    try:
                        b = bare(a, e)
                        with env.quiet():
                            chain.simulate(b, kind, lg, N, instrument=insts[kind], **o)
                    except Exception as x:
                        if rec.nviol:
                            continue                                  # the configuration is wrong already
                        raise
                    try:
                        with env.quiet():
                            chain.simulate(a, kind, lg, N, instrument=insts[kind], **o)
                    except Exception as x:
                        rec.check(False, "run:%s:%s" % (kind, lg), "the simulation of the loaded file failed with %s: %s" % (type(x).__name__, str(x)[:150]), where)
                        continue
                    skip = tuple("_" + h for h in HY if h not in e["hyd"])       # work space of classes that take no part
                    A, B = ({k: v for k, v in scene.out_fields(x).items() if not (skip and k.endswith(skip))} for x in (a, b))
                    bad = scene.diff_fields(A, B, rtol=1e-9, atol=0.)
                    rec.check(not bad, "simulation:%s:%s" % (kind, lg), lambda: "differs from the model configured by hand: " + scene.describe(A, B, bad[0]), where)
                    sig = "sub_col_Ze_tot" if kind == "radar" else "sub_col_beta_p_tot"
                    for cs in ["_strat"] + (["_conv"] if cls == "ModelE" and lg != "micro" else []):
                        if rec.check(sig + cs in A, "signal", "no signal of the %s clouds" % cs[1:], where):
                            v = A[sig + cs]
                            rec.check(np.isfinite(v).any() and (kind == "radar" or (v > 0).any()), "signal", "the %s clouds give no signal" % cs[1:], where)
                    rec.outcome((cls, kind, lg, str(o)))
            m.ds.close()
        del others
    finally:
        shutil.rmtree(d, ignore_errors=True)
