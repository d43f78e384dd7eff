"""P23: every instrument is built with the scattering tables of its own band and phase, in SI units, consistent with the physics they tabulate."""
import csv
import itertools
import math
import os

import numpy as np
import xarray as xr

from .. import env

BOUNDS = {
    "quick": "every instrument class x every site (three spellings) x supercooled or not x solid or 100 kg/m^3 DHARMA precipitating ice: every table, every row, every characteristic; all ordered pairs of "
             "instruments of which the tables of one are overwritten; all unknown sites built from the known names; Instrument built from frequency, wavelength, both, neither",
    "thorough": "as quick with all ordered triples of instruments that share tables",
}
RULE = "one execution = one table (or one invalid construction) of one constructed instrument, judged entry by entry"
ASSUMPTIONS = ["the columns of the table files are in the units their layout documents (micrometres and powers of it)",
               "radar tables may be computed for a neighbouring frequency of the same band (8 % in wavelength, 25 % for the C6 C-band table)",
               "the distributed files end in round-off noise for the smallest particles; closures are judged where the files resolve them"]
C = 299792458.
FOUR_PI = 4 * math.pi
RADARS = ("CSAPR", "XSACR", "NEXRAD", "KAZR", "WACR", "MWACR", "BASTA")
LIDARS = ("RL", "HSRL", "MPL", "CALIOP", "CEIL", "Ten64nm", "HSRL1064")
SITES = {"KAZR": ("sgp", "nsa", "awr", "ena", "mos"), "WACR": ("sgp", "awr", "mos", "micre")}
SITES["MWACR"] = SITES["BASTA"] = SITES["WACR"]
NOOPT = ("RL", "HSRL", "MPL", "CALIOP")               # no supercooled option
STR = {"MWACR": "WACR", "BASTA": "WACR", "MPL": "HSRL", "CALIOP": "HSRL", "Ten64nm": "1064nm", "HSRL1064": "1064nm"}
BAND = {"CSAPR": 6.25, "XSACR": 9.71, "NEXRAD": 3.0, "KAZR": 34.86, "WACR": 95.04}      # GHz
LAM = {"RL": .355, "HSRL": .532, "CEIL": .91, "1064nm": 1.064}                           # microns
ALL_BANDS = {**{k: C / (v * 1e9) * 1e6 for k, v in BAND.items()}, **LAM}


# detection limit at 1 km (dBZ), dielectric factor, transmit power (W), beam width (deg): instrument handbooks and papers cited in the classes
ZMIN = {"CSAPR": {None: -35.}, "XSACR": {None: -30.}, "NEXRAD": {None: -23. - 20 * math.log10(25.)}, "KAZR": {"sgp": -51.5, "nsa": -48.5, "awr": -45.5, "ena": -56.5, "mos": -41.6},
        "WACR": {"sgp": -46., "awr": -40., "mos": -40., "micre": -36.}}
KW = {"CSAPR": .93, "XSACR": .93, "NEXRAD": .92, "KAZR": .88, "WACR": .84}
# regions of the phase masks (Silber et al. 2018): upper or lower bounds of backscatter against depolarization ratio
PHASE = [("ice", 2, [0., .1, .100001, .2, 1.], [2e-5, 2e-5, 2e-6, 5e-7, 5e-7]), ("undef2", 4, [0., .1, .100001, .2, .200001, 1.], [2e-5, 2e-5, 2e-6, 9e-6, 1., 1.]),
         ("undef1", 3, [0., .1, .100001, .2, .200001, 1.], [2e-5, 2e-5, 1.41421e-4, 1e-3, 1., 1.]), ("liquid", 1, [0., .2, .200001, 1.], [2e-5, 1e-3, 1., 1.])]


def character(rec, ins, v):
    """The instrument is the one its class names."""
    c = {"instrument": v}
    k = STR.get(v["cls"], v["cls"])
    radar = v["cls"] in RADARS
    rec.step()
    rec.check(ins.instrument_class.lower() == ("radar" if radar else "lidar") and ins.instrument_str == k, "character:class", "instrument is a %s %s" % (ins.instrument_class, ins.instrument_str), c)
    f = ins.freq / 1e9 if radar else ins.wavelength
    rec.check(math.isclose(f, (BAND if radar else LAM)[k], rel_tol=1e-6), "character:band", "frequency (GHz) or wavelength (um) is %r instead of %r" % (f, (BAND if radar else LAM)[k]), c)
    rec.check(bool(ins.OD_from_sfc) == (v["cls"] != "CALIOP"), "character:direction", "OD_from_sfc is %r" % ins.OD_from_sfc, c)
    site = None if v["site"] is None else v["site"].lower()
    if radar:
        z = ZMIN[k][site]
        rec.check(abs(float(ins.Z_min_1km) - z) < .005, "character:sensitivity", "detection limit at 1 km is %r dBZ instead of %r" % (ins.Z_min_1km, z), c)
        rec.check(ins.K_w == KW[k], "character:K_w", "dielectric factor is %r instead of %r" % (ins.K_w, KW[k]), c)
    else:
        rec.check(ins.eta == (.7 if v["cls"] == "CALIOP" else 1.), "character:eta", "multiple scattering factor is %r" % ins.eta, c)
        rec.check(ins.ext_OD == 4, "character:extinction", "full extinction is at an optical depth of %r instead of 4" % ins.ext_OD, c)
        want = PHASE if v["cls"] in NOOPT else []
        got = [(str(t["class"]), int(t["class_ind"]), [float(x) for x in t["LDR"]], [float(x) for x in t["beta_p"]]) for t in ins.beta_p_phase_thresh]
        rec.check(sorted(got) == sorted(want), "character:phase", "regions of the phase mask are %s" % got, c)
    t = ins.mie_table["cl"] if k != "1064nm" or not v["sc"] else None       # the refractive index of the supercooled table of the 1064 nm lidars is a listed finding
    if t is not None:
        n = complex(float(t["compre_real"].values.flat[0]), float(t["compre_im"].values.flat[0]))
        d = np.sqrt(complex(ins.eps_liq)) - n
        rec.check(abs(d.real) < 1e-5 * n.real and abs(d.imag) < 1e-5 + .03 * n.imag, "character:eps", "permittivity of liquid %s is not the square of the refractive index %s of its Mie table" % (ins.eps_liq, n), c)


def variants():
    for c in RADARS + LIDARS:
        for s in SITES.get(c, (None,)):
            for sp in ((s, s.upper(), s.title()) if s else (None,)):
                for sc in ((True,) if c in NOOPT else (True, False)):
                    for dh in (False, True):
                        yield {"cls": c, "site": sp, "sc": sc, "dharma": dh}


def build(v):
    import emc2
    a = []
    if v["site"] is not None:
        a.append(v["site"])
    if v["cls"] not in NOOPT:
        a.append(v["sc"])
    if v["cls"] == "CSAPR":
        a.append(90.)
    if v["dharma"]:
        a.append("DHARMA")
    with env.quiet():
        return getattr(emc2.core.instruments, v["cls"])(*a)


def units(tier):
    V = list(variants())
    u = [{"kind": "tables", "v": V[i:i + 3], "i": i} for i in range(0, len(V), 3)]
    u.append({"kind": "reject"})
    u.append({"kind": "base"})
    L = [v for v in V if v["site"] in (None, "sgp", "nsa")]
    pairs = [(a, b) for a, b in itertools.product(range(len(L)), repeat=2) if STR.get(L[a]["cls"], L[a]["cls"]) == STR.get(L[b]["cls"], L[b]["cls"])]
    for i in range(0, len(pairs), 20):
        u.append({"kind": "alias", "pairs": [(L[a], L[b]) for a, b in pairs[i:i + 20]], "i": i, "deep": tier != "quick"})
    return u


def txt(path, names, sep):
    rows = [(r.split() if sep is None else r.split(sep)) for r in open(path).read().splitlines() if r.strip()]
    a = np.full((len(rows), len(names)), np.nan)
    for i, r in enumerate(rows):
        for j, x in enumerate(r[:len(names)]):
            try:
                a[i, j] = float(x)
            except ValueError:
                pass
    return {n: a[:, j] for j, n in enumerate(names)}


MIE = ("wavelength", "p_diam", "size_parameter", "compre_real", "compre_im", "scat_p", "alpha_p", "beta_p", "scat_eff", "ext_eff", "backscat_eff")
C6 = ("first", "p_diam", "p_diam_eq_A", "p_diam_eq_V", "V", "A", "beta_p", "scat_p", "alpha_p", "beta_p_cross")
MD = ("first", "p_diam", "p_diam_eq_A", "p_diam_eq_V", "p_diam_eq_VdivA", "V", "A", "beta_p", "scat_p", "alpha_p")
BC6 = ("r_e", "Q_scat", "Q_ext", "Q_back", "Q_back_cross", "LDR", "lidar_ratio")
BMD = ("D_e", "Q_scat", "Q_ext", "Q_back", "lidar_ratio")
SI = {"p_diam": 1e-6, "p_diam_eq_A": 1e-6, "p_diam_eq_V": 1e-6, "p_diam_eq_VdivA": 1e-6, "V": 1e-18, "A": 1e-12, "beta_p": 1e-12, "scat_p": 1e-12, "alpha_p": 1e-12,
      "beta_p_cross": 1e-12}
SI_MIE = {"p_diam": 2e-6, "scat_p": 1e-12, "alpha_p": 1e-12, "beta_p": 1e-12 / FOUR_PI, "backscat_eff": 1 / FOUR_PI}
P3_A = ("beta_p", "alpha_p", "A", "A_tot_norm", "A_tot_Mie_norm", "beta_p_eq_VdivA", "alpha_p_eq_VdivA", "A_tot_eq_VdivA_norm", "beta_p_eq_V", "alpha_p_eq_V", "A_tot_eq_V_norm")
P3_L = ("D_eq_VdivA_sphere", "D_eq_vol_sphere")
_FILES = {}


def reference(v):
    """{(group, key): ({variable: SI values}, file)} by an independent reading of the files."""
    s = STR.get(v["cls"], v["cls"])
    liq = "liq" if (s in ("RL", "HSRL") or not v["sc"]) else "liq_c"
    core = os.path.join(env.REPO, "emc2", "core")
    pi = "pi1" if v["dharma"] else "pi"
    f = {("mie_table", "cl"): ("mie", "mie_tables/Mie%s_%s.dat" % (s, liq)), ("mie_table", "pl"): ("mie", "mie_tables/Mie%s_%s.dat" % (s, liq)),
         ("mie_table", "ci"): ("mie", "mie_tables/Mie%s_ci.dat" % s), ("mie_table", "pi"): ("mie", "mie_tables/Mie%s_%s.dat" % (s, pi)),
         ("scat_table", "E3_ice"): ("c6", "c6_tables/C6_%s_8col_agg_rough_270K.dat" % s),
         ("scat_table", "CESM_ice"): ("md", "mDAD_tables/mDAD_%s_ice.dat" % s),
         ("bulk_table", "E3_ice"): ("bc6", "bulk_c6_tables/bulk_%s_C6PSD_c6_8col_ice_agg_rough_270K.dat" % s),
         ("bulk_table", "E3_liq"): ("bc6", "bulk_c6_tables/bulk_%s_C6PSD_mie_%s.dat" % (s, liq)),
         ("bulk_table", "mie_ice_E3_PSD"): ("bc6", "bulk_c6_tables/bulk_%s_C6PSD_mie_ice.dat" % s),
         ("bulk_table", "CESM_ice"): ("bmd", "bulk_mDAD_tables/bulk_%s_mDAD_mDAD_ice_263K.dat" % s),
         ("bulk_table", "mie_ice_CESM_PSD"): ("bmd", "bulk_mDAD_tables/bulk_%s_mDAD_mie_ice.dat" % s),
         ("bulk_table", "CESM_liq"): ("nc", "bulk_mDAD_tables/bulk_%s_mDAD_mie_%s.nc" % (s, liq)),
         ("bulk_table", "p3_liq"): ("nc", "bulk_mDAD_tables/bulk_%s_mDAD_mie_%s.nc" % (s, liq)),
         ("scat_table", "p3_ice"): ("p3", "p3_tables/emc2_p3_ice_lut_abrv_full_%s.nc" % s)}
    f["bulk_table", "p3_ice"] = f["bulk_table", "mie_ice_P3_PSD"] = f["scat_table", "p3_ice"]
    out = {}
    for k, (lay, name) in f.items():
        if (lay, name) not in _FILES:
            path = os.path.join(core, name)
            if lay == "mie":
                d = txt(path, MIE, None)
                d = {n: a * SI_MIE.get(n, 1.) for n, a in d.items()}
            elif lay in ("c6", "md"):
                d = txt(path, C6 if lay == "c6" else MD, ",")
                d = {n: a * SI.get(n, 1.) for n, a in d.items()}
                d["frequency" if s in BAND else "wavelength"] = d.pop("first")
            elif lay in ("bc6", "bmd"):
                d = txt(path, BC6 if lay == "bc6" else BMD, ",")
                if lay == "bmd":
                    d["r_e"] = d["D_e"] / 2.
            else:
                with xr.open_dataset(path) as ds:
                    d = {n: np.array(ds[n].values) for n in ds.variables}
                if lay == "p3":
                    for n in P3_A:
                        d[n] = d[n] * 1e-12
                    for n in P3_L:
                        d[n] = d[n] * 1e-6
                    d["V"] = d["V"] * 1e-18
                    d["p_diam"] = d["d"] * 1e-6
                    d["vt"] = np.where(np.isfinite(d["vt"]), d["vt"], np.nanmin(d["vt"]))
            _FILES[lay, name] = d
        out[k] = (_FILES[lay, name], name, lay)
    return out


def same(rec, ins, v, what="tables"):
    for (g, k), (ref, name, lay) in reference(v).items():
        t = getattr(ins, g).get(k)
        case = {"instrument": v, "table": "%s[%s]" % (g, k), "file": name, "check": what}
        if not rec.check(t is not None, "missing", "table is missing", case):
            continue
        rec.state(("table", g, k, name))
        for n, a in ref.items():
            rec.step()
            if not rec.check(n in t.variables, "missing", "%s is missing" % n, case):
                continue
            b = t[n].values
            if b.dtype == object:
                b = np.array([float(x) if str(x).strip().lower() not in ("nan", "") and str(x).strip("* ") else np.nan for x in b.ravel()]).reshape(b.shape)
            if lay in ("mie", "c6", "md"):
                wu = "meters^2" if n in ("scat_p", "alpha_p", "beta_p", "beta_p_cross", "A") else "meters^3" if n == "V" else "meters" if n.startswith("p_diam") else None
                rec.check(wu is None or t[n].attrs.get("units") == wu, "units:" + n, "%s is in %s but labelled %r" % (n, wu, t[n].attrs.get("units")), case)
            ok = a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True)
            if not ok:
                w = "shape" if a.shape != b.shape else "%g instead of %g" % first(a, b)
                rec.check(False, "%s:%s" % (what, n), "%s of the loaded table differs from the file in SI units (%s)" % (n, w), case)


def first(a, b):
    i = np.flatnonzero(~np.isclose(a, b, rtol=1e-9, atol=0, equal_nan=True).ravel())[0]
    return b.ravel()[i], a.ravel()[i]


def close(rec, key, msg, x, y, tol, case, m=None):
    x, y = np.broadcast_arrays(np.asarray(x, float), np.asarray(y, float))
    s = np.isfinite(x) & np.isfinite(y) & (y != 0)
    if m is not None:
        s = s & np.broadcast_to(m, s.shape)
    if not rec.check(s.sum() >= 5, key + ":empty", "the table resolves fewer than 5 entries for: " + msg, case):
        return
    rec.step(int(s.sum()))
    r = x[s] / y[s]
    rec.check(np.all(np.abs(r - 1) <= tol), key, "%s: ratio from %.5g to %.5g, tolerance %g" % (msg, r.min(), r.max(), tol), case)


def closures(rec, ins, v):
    """Physics that the loaded tables, whatever their files, have to obey together with the attributes of the instrument."""
    import warnings
    s = ins.instrument_str
    radar = ins.instrument_class == "radar"
    case = {"instrument": v}
    rec.check(s == STR.get(v["cls"], v["cls"]) and radar == (v["cls"] in RADARS), "identity", "wrong instrument string or class", case)
    rec.check(math.isclose(ins.freq * ins.wavelength * 1e-6, C, rel_tol=1e-9), "freq", "frequency times wavelength is not the speed of light", case)
    rec.check(math.isclose(ins.wavelength, ALL_BANDS[s], rel_tol=1e-6), "band", "wavelength is not that of the instrument", case)
    n = complex(ins.eps_liq) ** .5
    lam = ins.wavelength * 1e-6
    for h in ("cl", "pl", "ci", "pi"):
        t = ins.mie_table[h]
        c = dict(case, table="mie_table[%s]" % h)
        D, g = t.p_diam.values, np.pi / 4 * t.p_diam.values ** 2
        lt = t.wavelength.values * 1e-6
        rec.check(np.all(np.abs(lt / lam - 1) < .08), "mie-band", "the table is for another wavelength", c)
        near = min(ALL_BANDS, key=lambda b: abs(math.log(ALL_BANDS[b] / (lt[0] * 1e6))))
        rec.check(near == s, "mie-band", "the table belongs to the band of %s" % near, c)
        close(rec, "mie-size", "size parameter against pi D / wavelength", t.size_parameter, np.pi * D / lt, 1e-4, c)
        big = g > (1e-8 if radar else 3e-11)
        close(rec, "mie-ext", "extinction cross section against efficiency times area", t.alpha_p, g * t.ext_eff, .02, c, big)
        close(rec, "mie-sca", "scattering cross section against efficiency times area", t.scat_p, g * t.scat_eff, .05, c, big & (t.scat_p.values > t.scat_p.values.max() * 1e-9) & (t.scat_p.values > 1e-15))
        close(rec, "mie-back", "backscatter cross section against efficiency times area", t.beta_p, g * t.backscat_eff, .06, c, big & (t.beta_p.values > 1e-16))
        neg = (t.alpha_p.values < 0).any() or (t.scat_p.values > t.alpha_p.values * 1.001 + 1e-22).any()
        rec.check(not neg, "mie-energy:%s" % ("%s_%s" % (s, "liq_c" if v["sc"] else "liq") if h in ("cl", "pl") else s), "extinction is negative or less than scattering", c)
        if not radar:
            q = float(t.ext_eff.values[-1])
            rec.check(abs(q - 2) < .01, "mie-limit:%s" % ("%s_%s" % (s, "liq_c" if v["sc"] else "liq") if h in ("cl", "pl") else s), "extinction efficiency of large particles is %g, not 2" % q, c)
        nt = complex(t.compre_real.values[0], t.compre_im.values[0])
        if h in ("cl", "pl"):
            rec.check(abs(nt.real / n.real - 1) < 1e-6 and abs(nt.imag - n.imag) < 1e-6 + 2e-3 * n.imag,
                      "index:%s_%s" % (s, "liq_c" if v["sc"] and s not in ("RL", "HSRL") else "liq"), "the table was computed for refractive index %s, the instrument has %s" % (nt, n), c)
        else:
            lim = (1.2, 1.9) if radar else (1.2, 1.4)
            rec.check((1. < nt.real < lim[1]) and nt.imag < .05, "index-ice", "refractive index %s is not that of ice" % nt, c)
        if radar:        # dipole limit: shape independent ratio of backscatter to scattering, and D^6 for spheres
            K2 = abs((nt ** 2 - 1) / (nt ** 2 + 2)) ** 2
            m = (D > 1e-4) & (D < lt / 20) & (D < lam / 20) & (t.beta_p.values > 1e-20)
            ray = lt ** 4 * t.beta_p.values / (K2 * np.pi ** 5 * D ** 6)
            rayleigh(rec, "mie", h, ray, m, .08, c)
    pi, ci = (ins.mie_table[h].compre_real.values[0] for h in ("pi", "ci"))
    rec.check(pi < ci, "mie-density", "precipitating ice spheres are not lighter than cloud ice spheres", case)
    for k in ("E3_ice", "CESM_ice"):
        t = ins.scat_table[k]
        c = dict(case, table="scat_table[%s]" % k)
        lt = C / (t.frequency.values * 1e9) if radar else t.wavelength.values * 1e-6
        rec.check(np.all(np.abs(lt / lam - 1) < (.25 if (s, k) == ("CSAPR", "E3_ice") else .08)), "scat-band", "the table is for another wavelength", c)
        m = None if radar else t.p_diam.values > 2e-5
        close(rec, "scat-V", "volume against that of the equivalent sphere", t.V, np.pi / 6 * t.p_diam_eq_V ** 3, 1e-3, c, m)
        close(rec, "scat-A", "area against that of the equivalent disc", t.A, np.pi / 4 * t.p_diam_eq_A ** 2, 1e-3, c, m)
        d = t.p_diam.values
        rec.check(np.all(np.diff(d) > 0) and d[0] > 2e-7 and d[-1] < .02, "scat-size", "sizes are not increasing within 0.2 um and 2 cm", c)
        rec.check(np.all(t.scat_p.values <= t.alpha_p.values * 1.001 + 1e-22) and np.all(t.alpha_p.values >= 0), "scat-energy", "extinction is negative or less than scattering", c)
        if not radar and k == "E3_ice":
            q = (t.alpha_p / t.A).values[-1]
            rec.check(abs(q - 2) < .05, "scat-limit", "extinction efficiency of large particles is %g, not 2" % q, c)
        if radar:
            m = (d > 1e-4) & (d < lam / 20) & (t.scat_p.values > 1e-17)
            rayleigh(rec, "scat", k, t.beta_p.values / t.scat_p.values / 1.5, m, .15, c)
    for k in ("E3_liq", "E3_ice", "mie_ice_E3_PSD", "CESM_ice", "mie_ice_CESM_PSD", "CESM_liq"):
        t = ins.bulk_table[k]
        c = dict(case, table="bulk_table[%s]" % k)
        lr = np.array(t["lidar_ratio" if "lidar_ratio" in t else "lidar_Ratio"].values, dtype=float)
        bad = np.array(t.Q_scat.values > t.Q_ext.values * 1.001 + 1e-9).any() or (t.Q_ext.values < 0).any()
        kk = "%s_%s" % (s, "liq_c" if v["sc"] else "liq") if "liq" in k else s
        rec.check(not bad, "bulk-energy:%s" % kk, "bulk extinction is negative or less than scattering", c)
        if not radar:
            close(rec, "bulk-lr", "extinction to backscatter against the lidar ratio", t.Q_ext.values / t.Q_back.values, lr, 2e-3, c, t.Q_back.values > 1e-6)
        else:
            sg = "r_e" in t
            m = (t.r_e.values * 1e-6 < lam / 60) if sg else np.ones(t.Q_back.shape, bool)
            m = m & (t.Q_back.values > 1e-7) & (t.Q_scat.values > 1e-7)
            if m.sum() >= 3:
                rayleigh(rec, "bulk", k, t.Q_back.values / t.Q_scat.values / 1.5, m, .2, c)
        if k.endswith("liq") and not radar:
            q = t.Q_ext.values.ravel()
            rec.check(np.nanmin(q[-5:]) > 1.99 and np.nanmax(q[-5:]) < 2.2, "bulk-limit:%s" % kk, "extinction efficiency of large drops is not 2", c)
    t = ins.scat_table["p3_ice"]
    c = dict(case, table="scat_table[p3_ice]")
    from scipy.special import gammaln
    D = t.p_diam.values
    rec.check(abs(D[0] / 1e-6 - 1) < 1e-9 and abs(D[-1] / .01 - 1) < 1e-9, "p3-size", "sizes do not run from 1 um to 1 cm", c)
    la = t["lambda"].values
    mu = np.clip(.076 * (la / 100) ** .8 - 2, 0, 6)
    nd = np.exp(((mu + 1) * np.log(la) - gammaln(mu + 1))[..., None] + mu[..., None] * np.log(D) - la[..., None] * D)
    for a, tot, eff in (("A", "A_tot_norm", None), ("alpha_p", "A_tot_norm", "Q_ext_bulk"), ("beta_p", "A_tot_norm", "Q_back_bulk")):
        x = t[a].transpose("Fr", "rho_r", "d").values[:, :, None, :]
        integ = np.trapz(x * nd, D, axis=-1)
        r = t[tot].transpose("Fr", "rho_r", "q_norm").values * (1. if eff is None else t[eff].transpose("Fr", "rho_r", "q_norm").values)
        close(rec, "p3-integral", "integral of %s over the size distribution against the bulk value" % a, integ[:, :, 5:45], r[:, :, 5:45], .01, c)
    m = np.ones(t.V.shape, bool) & (t["d"] > 20.).broadcast_like(t.V).transpose(*t.V.dims).values
    close(rec, "p3-V", "volume against that of the equivalent sphere", t.V, np.pi / 6 * t.D_eq_vol_sphere ** 3, 3e-3, c, m)
    rec.check(np.all(np.isfinite(t.vt.values)) and (t.vt.values > 0).all() and (t.vt.values < 30).all(), "p3-vt", "fall speeds are not finite and positive", c)
    if radar:
        K2 = .177                                # ice
        solid = t.sel(Fr=1., rho_r=900.)         # solid spheres
        m = (D > 1e-4) & (D < lam / 20)
        ray = lam ** 4 * solid.beta_p.values / (np.pi ** 5 * solid.D_eq_vol_sphere.values ** 6) / K2
        rayleigh(rec, "scat", "p3_ice", ray, m, .1, c)


def rayleigh(rec, group, k, ratio, m, tol, c):
    x = np.asarray(ratio, float)[np.asarray(m)]
    x = x[np.isfinite(x) & (x > 0)]
    if x.size < 3:
        return
    rec.step(x.size)
    r = float(np.median(x))
    lo = .70 if c["instrument"]["cls"] == "NEXRAD" else 1 - tol
    if lo <= r <= 1 + tol:
        return
    tag = "4pi" if lo <= r * FOUR_PI <= 1 + tol else "bad"
    rec.check(False, "rayleigh-%s:%s:%s" % (tag, group, k), "in the Rayleigh limit the backscatter is %.4g of that which gives a particle's reflectivity (1/4pi = 0.0796)" % r, c)


def run_unit(u, rec):
    import emc2
    if u["kind"] == "tables":
        for v in u["v"]:
            rec.trace()
            try:
                i = build(v)
            except Exception as e:
                rec.check(False, "build", "construction failed: %s" % e, {"instrument": v})
                continue
            same(rec, i, v)
            character(rec, i, v)
            closures(rec, i, v)
            rec.outcome((v["cls"], v["sc"], v["dharma"]))
    elif u["kind"] == "reject":
        names = sorted({s for t in SITES.values() for s in t} | {"", "xyz", "sg", "sgpp", "nsa ", "arm"})
        for cls in SITES:
            for s in names:
                rec.trace()
                rec.state((cls, s))
                ok = s in SITES[cls]
                try:
                    build({"cls": cls, "site": s, "sc": True, "dharma": False})
                    got = True
                except ValueError:
                    got = False
                rec.check(got == ok, "site", "site %r of %s was %s" % (s, cls, "accepted" if got else "rejected"), {"cls": cls, "site": s})
    elif u["kind"] == "base":
        from emc2.core.instrument import Instrument, ureg
        F = [3e9 * ureg.Hz, 35 * ureg.GHz, 9400 * ureg.MHz]
        W = [.532 * ureg.micrometer, 355 * ureg.nanometer, 8.6 * ureg.millimeter, .03 * ureg.meter]
        hz, um = (3e9, 35e9, 9.4e9), (.532, .355, 8600., 3e4)
        for i, j in itertools.product((None, 0, 1, 2), (None, 0, 1, 2, 3)):
            rec.trace()
            case = {"frequency": str(None if i is None else F[i]), "wavelength": str(None if j is None else W[j])}
            kw = {}
            if i is not None:
                kw["frequency"] = F[i]
            if j is not None:
                kw["wavelength"] = W[j]
            try:
                ins = Instrument(**kw)
            except ValueError:
                rec.check(i is None and j is None, "base", "valid instrument rejected", case)
                continue
            if not rec.check(not (i is None and j is None), "base", "an instrument without frequency and wavelength was accepted", case):
                continue
            f = hz[i] if i is not None else C / (um[j] * 1e-6)
            w = um[j] if j is not None else C / hz[i] * 1e6
            rec.check(math.isclose(ins.freq, f, rel_tol=1e-9) and math.isclose(ins.wavelength, w, rel_tol=1e-9), "base", "frequency %g Hz or wavelength %g um" % (ins.freq, ins.wavelength), case)
    else:
        for a, b in u["pairs"]:
            rec.trace()
            i = build(a)
            scramble(i)
            j = build(b)                  # a fresh instrument does not inherit what was done to another
            same(rec, j, b, "shared")
            k = build(a)
            scramble(j)
            same(rec, k, a, "shared")
            if u["deep"]:
                l = build(b)
                scramble(k)
                same(rec, l, b, "shared")
            rec.outcome((a["cls"], b["cls"]))


def scramble(ins):
    for g in (ins.mie_table, ins.scat_table, ins.bulk_table):
        for t in g.values():
            for n in t.data_vars:
                if t[n].dtype.kind == "f":
                    t[n].load()
                    t[n].values[...] = -7.
