"""P10: signals are attenuated along the instrument's path: by exactly what lies between the instrument and the level."""
import itertools

import numpy as np

from .. import chain, scene, synth
from ..scene import canon
from . import p07

BOUNDS = {
    "quick": "all 3^4 (two-class: 4^4) profiles of clear/thin/thick layers on 4 levels, 3 height grids in 2 units, both directions, radar and lidar, "
             "radiation (ModelE, CESM) / microphysics / empirical logic, stratiform and convective, eta in {1, 0.7}",
    "thorough": "profiles on 5 levels, 5 height grids, 3 units",
}
RULE = "state = one vertical profile of layers seen by one instrument in one mode; each compared with an explicit path integral"
ASSUMPTIONS = ["the top model level is kept clear of hydrometeors", "the path integral uses the extinction that the simulator itself reports per layer "
               "(for the radar: the extinction of a lidar with the same scattering tables)"]

GRIDS = {"uniform": [500., 1000., 1500., 2000., 2500., 3000.], "stretched": [100., 250., 700., 1900., 4000., 9000.],
         "shrinking": [50., 2000., 3500., 4400., 5000., 5200.], "elevated": [3000., 3100., 3300., 3900., 5100., 7000.],
         "thin": [10., 20., 30., 45., 70., 110.]}
RADAR_AS_LIDAR = []


def units(tier):
    u = []
    grids = ("uniform", "stretched", "shrinking") if tier == "quick" else tuple(GRIDS)
    for logic, conv, rad in (("rad", False, "ModelE"), ("rad", True, "ModelE"), ("rad", False, "CESM"), ("micro", False, "ModelE"), ("emp", False, "ModelE"),
                             ("emp", True, "ModelE")):
        for g in grids:
            for kind in ("radar", "lidar"):
                for sfc in (True, False):
                    u.append({"logic": logic, "conv": conv, "rad": rad, "grid": g, "kind": kind, "sfc": sfc, "L": 4 if tier == "quick" else 5,
                              "unit": "kilometer" if g == "stretched" else "meter"})
    return u


def radar_as_lidar():
    """A lidar carrying the radar's scattering tables: reports the extinction the radar must accumulate."""
    if not RADAR_AS_LIDAR:
        i, r = synth.make_instrument("lidar"), chain.inst("radar")
        i.mie_table, i.scat_table, i.bulk_table = r.mie_table, r.scat_table, r.bulk_table
        RADAR_AS_LIDAR.append(i)
    return RADAR_AS_LIDAR[0]


def build(u):
    L, H, T = u["L"], 6, 2
    pats = list(itertools.product(range(3), repeat=L))
    N = len(pats)
    P = np.array(pats)
    lev = np.zeros((N, T, H), int)
    lev[:, 0, :L] = P
    lev[:, 1, 1:L + 1 if L < H - 1 else L + 0] = P[:, :(L if L < H - 1 else L - 1)]
    amp = np.array([0., .1, .8])
    z = np.array(GRIDS[u["grid"]])
    fac = {"kilometer": 1e-3, "meter": 1.}[u["unit"]]
    zz = (z[None, :] + np.array([[0.], [35.]])) * fac
    p = 1000. * np.exp(-z / 8000.)[None, :] - np.array([[0.], [7.]])
    kw = dict(rad=u["rad"], z=zz, p=p, t=(285. - 5.5e-3 * z)[None, :] + np.array([[0.], [3.]]), units={"z": u["unit"]}, rhoa_corr=True)
    # liquid in the thin layers of even levels, ice elsewhere: both classes take part in every path
    cls = {"cl": np.zeros((N, T, H), bool), "ci": np.zeros((N, T, H), bool), "pl": np.zeros((N, T, H), bool), "pi": np.zeros((N, T, H), bool)}
    qs = {}
    for j in range(H):
        on = lev[:, :, j] > 0
        if u["logic"] == "emp" and u["kind"] == "radar":
            tgt = ("cl",) if j % 2 else ("pl", "ci")   # only liquid attenuates in the empirical radar logic
        else:
            tgt = ("cl", "pi") if j % 2 else ("ci", "pl")
        for h in tgt:
            cls[h][:, :, j] = on
    w = scene.vary(T, H, N, 3)
    for h in synth.HYD:
        qs[h] = amp[lev] * w
    key = ("p10", u["grid"], L)
    nothing = {h: False for h in synth.HYD}
    if u["conv"]:
        m = scene.scene(T, H, N, nothing, conv_masks=cls, conv_qscale=qs, key=key, **kw)
    else:
        m = scene.scene(T, H, N, cls, qscale=qs, key=key, **kw)
    if u["rad"] == "CESM":
        p07.add_mu_lambda(m, T)
    return m, np.broadcast_to(zz / fac, (T, H)), pats


def path(ext, z, sfc):
    """Extinction per layer (N,T,H) [1/m] and heights (T,H) -> optical depth between the instrument and each level."""
    out = np.zeros(np.shape(ext))
    H = z.shape[1]
    if sfc:
        for k in range(1, H):
            out[..., k] = out[..., k - 1] + ext[..., k - 1] * (z[:, k] - z[:, k - 1])
    else:
        for k in range(H - 2, -1, -1):
            out[..., k] = out[..., k + 1] + ext[..., k + 1] * (z[:, k + 1] - z[:, k])
    return out


def trap(ext, z, sfc):
    out = np.zeros(np.shape(ext))
    H = z.shape[1]
    if sfc:
        for k in range(1, H):
            out[:, k] = out[:, k - 1] + .5 * (ext[:, k] + ext[:, k - 1]) * (z[:, k] - z[:, k - 1])
    else:
        for k in range(H - 2, -1, -1):
            out[:, k] = out[:, k + 1] + .5 * (ext[:, k] + ext[:, k + 1]) * (z[:, k + 1] - z[:, k])
    return out


def get(m, name):
    return canon(m, m.ds[name])


def run_unit(u, rec):
    cs = "conv" if u["conv"] else "strat"
    mode = {k: u[k] for k in ("kind", "logic", "conv", "rad", "sfc", "grid")}

    def need(name, got, want, pats=None, rtol=1e-9, atol=1e-13):
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        rec.outcome((u["kind"], u["logic"], name, u["sfc"], bool(ok.all())))
        if not ok.all():
            i = tuple(map(int, np.argwhere(~ok)[0]))
            rec.violation("%s:%s:%s" % (u["kind"], u["logic"], name), "%s at %s is %r, the path between instrument and level gives %r" % (
                name, list(i), float(got[i]), float(np.broadcast_to(want, got.shape)[i])),
                {"mode": mode, "profile": list(pats[i[0]]) if pats and len(got.shape) == 3 else None})
    m, z, pats = build(u)
    T, H = z.shape
    N = len(pats)
    for p in pats:
        rec.state((u["kind"], u["logic"], u["conv"], u["rad"], u["sfc"], u["grid"], p))
    rec.step(N * T * H)
    if u["kind"] == "lidar":
        for eta in (1., .7):
            m, z, pats = build(u)
            chain.moments(m, "lidar", u["conv"], u["logic"], OD_from_sfc=u["sfc"], eta=eta)
            rec.trace()
            tot = 0.
            for h in synth.HYD:
                od = path(get(m, "sub_col_alpha_p_%s_%s" % (h, cs)), z, u["sfc"])
                need("class optical depth", get(m, "sub_col_OD_%s_%s" % (h, cs)), od, pats)
                tot = tot + od
            need("total optical depth", get(m, "sub_col_OD_tot_" + cs), tot, pats)
            tau = np.exp(-2 * trap(get(m, "beta"), z, u["sfc"]))
            need("molecular transmittance", get(m, "tau"), tau)
            bm, bp = get(m, "sigma_180_vol"), get(m, "sub_col_beta_p_tot_" + cs)
            need("attenuated backscatter", get(m, "sub_col_beta_att_tot_" + cs), (bm + bp) * tau * np.exp(-2 * eta * tot), pats, atol=0)
            rec.check(bool((get(m, "tau") <= 1).all() and (get(m, "tau") > 0).all()), "lidar:tau-range", "molecular transmittance outside (0,1]", mode)
    else:
        chain.moments(m, "radar", u["conv"], u["logic"], OD_from_sfc=u["sfc"])
        rec.trace()
        ext, atm = get(m, "hyd_ext_" + cs), get(m, "atm_ext")
        od = -.5 * np.log(ext)
        assert np.isfinite(od).all() and od.max() < 300, od.max()
        kap = get(m, "kappa_att")
        need("gaseous transmittance", atm, 10 ** (-.2 * path(kap[None] * 1e-3, z, u["sfc"])[0]))
        rec.check(bool((ext <= 1).all() and (ext >= 0).all() and (atm <= 1).all() and (atm > 0).all()), "radar:range", "transmittance outside [0,1]", mode)
        if u["logic"] != "emp":
            ml, _, _ = build(u)
            chain.moments(ml, "lidar", u["conv"], u["logic"], instrument=radar_as_lidar(), OD_from_sfc=u["sfc"])
            tot = path(sum(get(ml, "sub_col_alpha_p_%s_%s" % (h, cs)) for h in synth.HYD), z, u["sfc"])
            need("hydrometeor transmittance", ext, np.exp(-2 * tot), pats)
        else:
            # extinction proportional to the liquid water content: infer the constant from the strongest path
            rho = p_over_rt(m)
            w = sum(np.where(get(m, "%s_frac_subcolumns_%s" % (cs, h)) > 0, get(m, "%s_q_subcolumns_%s" % (cs, h)), 0.) for h in ("cl", "pl")) * rho
            x = path(w, z, u["sfc"])
            i = np.unravel_index(np.argmax(x), x.shape)
            c = od[i] / x[i]
            rec.check(c > 0, "radar:emp:sign", "liquid water does not attenuate", mode)
            need("hydrometeor transmittance", ext, np.exp(-2 * c * x), pats, rtol=1e-7)
            # the constant itself: Rayleigh absorption of water, dB/km per g/m3
            ins = chain.inst("radar")
            k = 6 * np.pi / (ins.wavelength * 1000.) * ((ins.eps_liq - 1) / (ins.eps_liq + 2)).imag * 4.34e6
            kk = c * 1e3 / 1e3 * 10 / np.log(10)   # dB/km per g/m3
            rec.check(abs(kk / k - 1) < 1e-6, "radar:emp:constant", "liquid attenuation is %r of the Rayleigh absorption" % (kk / k), mode)
        za, zt = get(m, "sub_col_Ze_att_tot_" + cs), get(m, "sub_col_Ze_tot_" + cs)
        need("attenuated reflectivity", za, zt + 10 * np.log10(ext) + 10 * np.log10(atm), pats, atol=1e-9)
    # monotone along the path, and nothing in front of the first layer counts
    od = get(m, "sub_col_OD_tot_" + cs) if u["kind"] == "lidar" else od
    d = np.diff(od if u["sfc"] else od[..., ::-1], axis=2)
    rec.check(bool((d >= -1e-12).all()), u["kind"] + ":monotone", "attenuation decreases along the path", mode)
    first = od[..., 0 if u["sfc"] else -1]
    rec.check(bool((np.abs(first) < 1e-12).all()), u["kind"] + ":origin", "attenuation before the first level of the path", mode)
    rec.sample({"mode": mode, "profiles": N})


def p_over_rt(m):
    return get(m, "p_3d") * 1e2 / (chain.inst("radar").R_d * get(m, "t"))
