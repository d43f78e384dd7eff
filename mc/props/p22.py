"""P22: P3 ice: every cell is simulated from the particle population P3 gives it (rime fraction, rime density, mass per particle, number)."""
import itertools
import math
import os
import shutil
import tempfile

import numpy as np
import xarray as xr

from .. import chain, env, scene
from ..scene import canon
from . import p19

BOUNDS = {
    "quick": "loader and simulators on a lattice of 6 rime fractions (0..above 1) x 6 rime densities (below..above the table) x 8 masses per particle (below, on, between, "
             "above nodes) x 2 numbers x 2 cloud fractions x 2 air densities, plus empty cells, x radar/lidar x radiation/microphysics logic x solid spheres or P3 habit x all 5 "
             "hybrid settings x 1 and 2 subcolumns; all ordered pairs of 6 simulations on one model object",
    "thorough": "as quick with 12 masses per particle, 3 numbers, KAZR/WACR/CSAPR/XSACR/NEXRAD and HSRL/CEIL/RL/1064 nm tables and all ordered triples",
}
RULE = "one execution = one ice cell in one simulation compared with the scalar trilinear reference"
ASSUMPTIONS = ["table numbers are taken as loaded (their loading is judged by P23)", "an instrument is given to the model at construction",
               "population properties (areas, effective radius) come from the tables of the instrument given at construction",
               "with microphysics logic ice is never treated as solid spheres in P3 (documented)"]
RD = 287.058


def fr_l():
    return (0., .2, .33, .6, 1., 1.25)


def lattice(tier):
    q = (1e-17, 4.5e-13, 2e-10, 6e-9, 3e-7, 1.1e-5, 1e-4, 2e-3) if tier == "quick" else tuple(np.geomspace(1e-17, 2e-3, 12))
    n = (2e2, 3e4) if tier == "quick" else (2e1, 4e3, 1e5)
    return list(itertools.product(fr_l(), (20., 50., 130., 450., 800., 1200.), q, n, (.25, 1.), (0, 1)))


def write_file(path, cells, H):
    """E3SMv3-like output: one cell of the lattice per (time, level); the top level and every 13th cell are free of ice."""
    T = -(-len(cells) // (H - 1))
    lev = np.arange(H) * 1.
    p = np.linspace(250., 930., H)           # file order: from the top of the atmosphere down
    t2 = np.where(np.arange(T) % 2, 265., 225.)[:, None] + .02 * (p - 250.)
    rho = p * 1e2 / (RD * t2)
    shape = (T, H)
    F, R, Q, N, C = (np.zeros(shape) for _ in range(5))
    R[:] = 100.
    C[:] = .5
    where = {}
    # pressure class 0: lower half; class 1: upper half: any cell, the air density differs in each
    for i, c in enumerate(cells):
        x, k = i // (H - 1), 1 + i % (H - 1)
        F[x, k], R[x, k], Q[x, k], N[x, k], C[x, k] = c[:5]
        if i % 13 == 5:
            Q[x, k] = 0.
        where[(x, H - 1 - k)] = c[:2] + (Q[x, k],) + c[3:5] + (rho[x, k],)
    d = ("time", "lev")
    qi = Q * N * C / rho
    rim = F * qi
    z = 44330. * (1 - (p / 1013.25) ** .19)
    o = np.ones(shape)
    ds = xr.Dataset({"T": (d, t2 * o, {"units": "K"}), "Z3": (d, z * o, {"units": "m"}), "P0": ((), 1e5), "PS": (("time",), np.full(T, 1e5)),
                     "hyam": (("lev",), p / 1e3 * .5), "hybm": (("lev",), p / 1e3 * .5), "Q": (d, 1e-4 * o), "CLDLIQ": (d, 1e-5 * o), "NUMLIQ": (d, 5e7 * o),
                     "CLDICE": (d, qi), "NUMICE": (d, N * C / rho), "CLDRIM": (d, rim), "BVRIM": (d, np.where(F > 0, rim / R, 0.)),
                     "FREQL": (d, .5 * o), "FREQI": (d, C), "CLOUD": (d, .5 * o), "AREL": (d, 9. * o), "AREI": (d, 40. * o),
                     "mu_cloud": (d, 5. * o), "lambda_cloud": (d, 4e5 * o), "RELVAR": (d, o),
                     "FREQR": (d, 0 * o), "RAINQM": (d, 0 * o), "NUMRAI": (d, 0 * o), "ADRAIN": (d, 2e-4 * o)}, coords={"lev": lev, "time": np.arange(T) * 1.})
    ds.to_netcdf(path)
    return where, (T, H)


def cell(a, x):
    """Index and weight of x on the ascending axis a, limited to the axis."""
    x = min(max(x, a[0]), a[-1])
    i = int(np.searchsorted(a, x, side="right")) - 1
    i = min(max(i, 0), len(a) - 2)
    return i, (x - a[i]) / (a[i + 1] - a[i])


class Ref:
    """Scalar reference of one instrument's P3 tables."""

    def __init__(self, inst):
        self.t = inst.scat_table["p3_ice"]
        self.inst = inst
        self.ax = [self.t[k].values.astype(float) for k in ("Fr", "rho_r", "q_norm")]
        self.D = self.t["p_diam"].values.astype(float)
        self.v = {}

    def var(self, k):
        if k not in self.v:
            last = "q_norm" if "q_norm" in self.t[k].dims else "d"
            self.v[k] = self.t[k].transpose("Fr", "rho_r", last).values.astype(float)
        return self.v[k]

    def at(self, k, fr, rr, q=None):
        a = self.var(k)
        i, u = cell(self.ax[0], fr)
        j, v = cell(self.ax[1], rr)
        r = (1 - u) * ((1 - v) * a[i, j] + v * a[i, j + 1]) + u * ((1 - v) * a[i + 1, j] + v * a[i + 1, j + 1])
        if q is None:
            return r
        m, w = cell(self.ax[2], q)
        return (1 - w) * r[m] + w * r[m + 1]

    def psd(self, fr, rr, q, N):
        la = self.at("lambda", fr, rr, q)
        mu = min(max(.076 * (la / 100.) ** .8 - 2., 0.), 6.)
        lg = math.log(N) + (mu + 1.) * math.log(la) - math.lgamma(mu + 1.)
        return la, mu, lg, np.exp(lg + mu * np.log(self.D) - la * self.D)

    def micro(self, fr, rr, q, N, hybrid, corr):
        b = self.at("beta_p_eq_V" if hybrid > 0 else "beta_p", fr, rr)
        a = self.at("alpha_p_eq_V" if hybrid > 0 else "alpha_p", fr, rr)
        nd = self.psd(fr, rr, q, N)[3]
        back, ext = p19_trapz(b * nd, self.D), p19_trapz(a * nd, self.D)
        v = -self.at("vt", fr, rr) * corr
        vd = p19_trapz(v * b * nd, self.D) / back
        return back, ext, vd, math.sqrt(p19_trapz((v - vd) ** 2 * b * nd, self.D) / back)

    def bulk(self, fr, rr, q, N, hybrid, mie, wc, own):
        """own: reference of the tables the model was built with (population properties do not belong to an instrument)."""
        s = "_Mie" if mie else ""
        qb, qe = self.at("Q_back%s_bulk" % s, fr, rr, q), self.at("Q_ext%s_bulk" % s, fr, rr, q)
        if hybrid == 1:      # area of all particles from the effective radius and the mass density of the ice
            A = 3. * wc / (4. * own.at("rho_m_weight", fr, rr, q) * own.at("ri_eff", fr, rr, q))
        else:
            A = N * own.at("A_tot_norm" if hybrid == 0 else "A_tot_Mie_norm" if mie else "A_tot_eq_V_norm", fr, rr, q)
        return qb * A, qe * A


def p19_trapz(y, x):
    return float(np.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1]) / 2.))


def units(tier):
    u = []
    pairs = [("KAZR", "HSRL")] if tier == "quick" else [("KAZR", "HSRL"), ("WACR", "CEIL"), ("CSAPR", "RL"), ("XSACR", "Ten64nm"), ("NEXRAD", "HSRL")]
    L = len(lattice(tier))
    parts = 4 if tier == "quick" else 8
    for ra, li in pairs:
        for hy in (False, True, 0, 1, 2):
            for N in (1, 2):
                if N == 1 and isinstance(hy, bool):
                    continue
                for k in range(1 if isinstance(hy, bool) and tier == "quick" else parts):
                    u.append({"kind": "lattice", "tier": tier, "radar": ra, "lidar": li, "hybrid": hy, "N": N, "part": [k, parts], "L": L})
    for hy, N in itertools.product((0, 1, 2), (1, 3)):
        u.append({"kind": "chain", "tier": tier, "radar": "KAZR", "lidar": "HSRL", "hybrid": hy, "N": N})
    for hy in (0, 1, 2):
        for first in range(6):
            u.append({"kind": "history", "tier": tier, "radar": "KAZR", "lidar": "HSRL", "hybrid": hy, "N": 2, "first": first, "depth": 2 if tier == "quick" else 3})
    return u


STEPS = [("radar", "rad", False), ("radar", "micro", False), ("lidar", "rad", False), ("lidar", "micro", False), ("radar", "rad", True), ("lidar", "rad", True)]


def close(a, b, rtol=1e-8, atol=0.):
    return bool(abs(a - b) <= rtol * abs(b) + atol)


def run_chain(u, rec, insts, refs, L):
    """Whole simulations (generated subcolumns), twice over on the same model, with the options left at their defaults."""
    import emc2
    d = tempfile.mkdtemp(prefix="emc2_p22_")
    try:
        cells = [c for i, c in enumerate(L[::31])]
        for seq in itertools.product((("radar", "rad", False), ("radar", "micro", False), ("lidar", "rad", False), ("lidar", "micro", False)), repeat=2):
            path = os.path.join(d, "p3_%d.nc" % len(os.listdir(d)))
            where, (T, H) = write_file(path, cells, 9)
            where = {k: v for k, v in where.items() if v[2] > 0}
            with env.quiet():
                m = emc2.core.model.E3SMv3(path, instrument=insts[seq[0][0]], use_hybrid_scat=u["hybrid"])
            for j, s in enumerate(seq):
                chain.simulate(m, s[0], s[1], u["N"], instrument=insts[s[0]])
                f, q = (canon(m, m.ds["strat_%s_subcolumns_ci" % z]) for z in ("frac", "q"))
                judge(u, rec, m, where, (f > 0) & (q > 0), q, refs[s[0]], refs[seq[0][0]], s, ["whole"] + [list(t) for t in seq[:j + 1]])
                n = int(((f > 0) & (q > 0)).sum())
                rec.outcome(("cells with ice", n > 0))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.sample(u)


def build(u, d, cells, H, builder):
    import emc2
    path = os.path.join(d, "p3_%d.nc" % len(os.listdir(d)))      # a loaded model keeps its file open
    where, (T, H) = write_file(path, cells, H)
    with env.quiet():
        m = emc2.core.model.E3SMv3(path, instrument=builder, use_hybrid_scat=u["hybrid"])
    N = u["N"]
    m.ds["subcolumn"] = ("subcolumn", np.arange(N))
    ice = np.zeros((N, T, H))
    for (x, k), c in where.items():
        ice[:, x, k] = c[2] > 0
        if N > 1:
            ice[(x + k) % N, x, k] = 0.
    wc = np.zeros((N, T, H))
    for (x, k), c in where.items():
        wc[:, x, k] = c[2] * c[3] / c[5] * ice[:, x, k]
    liq = np.zeros((N, T, H))
    liq[0, :, 2] = 1.
    for h, a, q, n in (("ci", ice, wc, ice * 1e-2), ("cl", liq, liq * 2e-4, liq * 90.)):
        scene.put(m, "strat_frac_subcolumns_" + h, a)
        scene.put(m, "strat_q_subcolumns_" + h, q)
        scene.put(m, "strat_n_subcolumns_" + h, n)
    return m, where, ice, wc


def judge_loader(u, rec, m, where, ref):
    """Per-particle quantities and PSD of the loaded model."""
    g = {k: canon(m, m.ds[k]) for k in ("Fr", "rho_r", "qi_norm", "in_cld_Ni", "lambda_ice", "mu_ice", "N0_norm_ice", "rho_a")}
    for (x, k), (fr, rr, q, N, C, rho) in where.items():
        case = {"Fr": fr, "rho_r": rr, "q_norm": q, "Ni": N, "frac": C, "rho_a": rho, "unit": u}
        rec.step()
        rec.trace()
        rec.check(close(g["in_cld_Ni"][x, k], N), "number", lambda: "in-cloud ice number is %r m-3, expected %r" % (float(g["in_cld_Ni"][x, k]), N), case)
        rec.check(close(g["rho_a"][x, k], rho), "rho_a", lambda: "air density %r, expected %r" % (float(g["rho_a"][x, k]), rho), case)
        if q <= 0:
            continue
        lim = lambda v, i: min(max(v, ref.ax[i][0]), ref.ax[i][-1])
        for name, val, i in (("Fr", fr, 0), ("rho_r", rr if fr > 0 else 0., 1), ("qi_norm", q, 2)):
            rec.check(close(g[name][x, k], lim(val, i), 1e-7, 1e-12 if i == 0 else 0.), "input:" + name, lambda: "%s is %r, expected %r" % (name, float(g[name][x, k]), lim(val, i)), case)
        la, mu, lg, nd = ref.psd(fr, rr if fr > 0 else 0., q, N)
        rec.check(close(g["lambda_ice"][x, k], la, 1e-7), "slope", lambda: "slope %r, expected %r" % (float(g["lambda_ice"][x, k]), la), case)
        rec.check(close(g["mu_ice"][x, k], mu, 1e-7, 1e-9), "shape", lambda: "shape parameter %r, expected %r" % (float(g["mu_ice"][x, k]), mu), case)
        got = math.log(g["N0_norm_ice"][x, k]) if g["N0_norm_ice"][x, k] > 0 else float("nan")
        rec.check(close(got, lg - math.log(N), 1e-8), "intercept", lambda: "log intercept %r, expected %r" % (got, lg - math.log(N)), case)
        if ref.ax[2][0] < q < ref.ax[2][-1] and fr in ref.ax[0] and rr in ref.ax[1]:
            # at nodes the mass of the population is the mass of the cell (the tables were made that way)
            i, w = cell(ref.ax[2], q)
            if w < 1e-9 or w > 1 - 1e-9:
                num = float(np.trapezoid(nd, ref.D) if hasattr(np, "trapezoid") else np.trapz(nd, ref.D))
                rec.check(abs(num / N - 1) < .05, "closure", lambda: "the PSD holds %r particles, the cell %r" % (num, N), case)
        rec.state((u["tier"], fr, rr, q, N, C, round(rho, 3)))
        rec.outcome((mu == 0, mu == 6, fr == 0, fr > 1))


def judge(u, rec, m, where, ice, wc, ref, own, step, tag):
    kind, logic, mie = step
    hy = int(u["hybrid"])
    inst = ref.inst
    out = {}
    if kind == "radar":
        names = ["Ze"] + (["Vd", "sigma_d"] if logic == "micro" else [])
    else:
        names = ["beta_p", "alpha_p"]
    for n in names:
        out[n] = canon(m, m.ds["sub_col_%s_ci_strat" % n])
    fac = inst.wavelength ** 4 / (inst.K_w * math.pi ** 5) * 1e-6
    tr = canon(m, m.ds["hyd_ext_strat"]) if kind == "radar" else None
    site = "%s:%s%s" % (kind, logic, ":spheres" if mie else "")
    z = canon(m, m.ds["Z3"])
    for (x, k), (fr, rr, q, N, C, rho) in where.items():
        case = {"Fr": fr, "rho_r": rr, "q_norm": q, "Ni": N, "frac": C, "rho_a": rho, "step": list(step), "history": tag, "unit": u}
        rec.step()
        if q > 0:
            rf = rr if fr > 0 else 0.
            if logic == "micro":
                back, ext, vd, sd = ref.micro(fr, rf, q, N, hy, (.8254 / rho) ** .54)
            else:
                back, ext = None, None
        for i in range(u["N"]):
            rec.trace()
            if not ice[i, x, k]:
                for n in names:
                    v = out[n][i, x, k]
                    ok = not np.isfinite(v) if n == "Ze" else not (v == v and v != 0)
                    rec.check(ok, "empty:%s:%s" % (site, n), lambda: "%s of a cell without ice is %r" % (n, float(v)), case)
                continue
            b, e = (back, ext) if logic == "micro" else ref.bulk(fr, rf, q, N, hy, mie, wc[i, x, k] * rho_dz(m, x, k, z), own)
            if kind == "radar":
                want = 10 * math.log10(b * fac)
                rec.check(abs(out["Ze"][i, x, k] - want) <= 1e-6, "Ze:" + site, lambda: "Ze is %r dBZ, expected %r" % (float(out["Ze"][i, x, k]), want), case)
                lo, hi = tr[i, x, k], tr[i, x, k + 1]
                if lo > 1e-200 and not m.ds["strat_frac_subcolumns_cl"].values[i, x, k]:
                    er = math.exp(-2 * e * (z[x, k + 1] - z[x, k]))
                    rec.check(er < 1e-200 or close(hi, lo * er, 1e-8, 1e-15), "extinction:" + site, lambda: "two-way transmittance of the layer is %r, expected %r" % (float(hi / lo), er), case)
                if logic == "micro":
                    rec.check(close(out["Vd"][i, x, k], vd, 1e-7), "Vd:" + site, lambda: "Vd is %r, expected %r" % (float(out["Vd"][i, x, k]), vd), case)
                    rec.check(close(out["sigma_d"][i, x, k], sd, 1e-6, 1e-9), "sigma:" + site, lambda: "spectral width is %r, expected %r" % (float(out["sigma_d"][i, x, k]), sd), case)
            else:
                for n, want in (("beta_p", b), ("alpha_p", e)):
                    rec.check(close(out[n][i, x, k], want, 1e-7, 0.), n + ":" + site, lambda: "%s is %r, expected %r" % (n, float(out[n][i, x, k]), want), case)
    rec.outcome((site, hy))


def rho_dz(m, x, k, z):
    """The radiation approach spreads the mass of the layer between two pressure levels over its thickness: kg per m3 per unit mixing ratio."""
    p = canon(m, m.ds[m.p_field])
    return abs(p[x, k + 1] - p[x, k]) * 1e2 / 9.80665 / (z[x, k + 1] - z[x, k])


def run_unit(u, rec):
    insts = {"radar": p19.instrument(u["radar"]), "lidar": p19.instrument(u["lidar"])}
    refs = {k: Ref(i) for k, i in insts.items()}
    L = lattice(u["tier"])
    if u["kind"] == "chain":
        return run_chain(u, rec, insts, refs, L)
    if u["kind"] == "lattice":
        k, n = u["part"]
        cells, H = L[k::n], 25
        seqs = [[s] for s in STEPS]
    else:
        cells, H = L[::47], 9
        seqs = [[STEPS[u["first"]]] + [STEPS[j] for j in t] for t in itertools.product(range(6), repeat=u["depth"] - 1)]
    d = tempfile.mkdtemp(prefix="emc2_p22_")
    try:
        builder = "radar" if u["N"] == 1 or u["kind"] == "history" and u.get("first", 0) % 2 else "lidar"
        for n, seq in enumerate(seqs):
            m, where, ice, wc = build(u, d, cells, H, insts[builder])
            if n == 0:
                judge_loader(u, rec, m, where, refs[builder])
            for j, s in enumerate(seq):
                chain.moments(m, s[0], False, s[1], instrument=insts[s[0]], mie_for_ice=s[2])
                judge(u, rec, m, where, ice, wc, refs[s[0]], refs[builder], s, [list(t) for t in seq[:j + 1]])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.sample(u)
