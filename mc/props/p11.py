"""P11: the total radar echo combines stratiform and convective echoes, and the detection mask compares it with the range-dependent sensitivity."""
import itertools

import numpy as np

from .. import chain, scene, synth
from ..scene import canon

BOUNDS = {
    "quick": "all profiles over 3 levels of {none,weak,strong} stratiform x {none,weak,strong} convective cells (729 subcolumns, 2 time columns), radiation/microphysics/empirical "
             "logic, both directions, 7 sensitivities, 4 reference ranges, 2 height units, with and without convective processing",
    "thorough": "as quick with 4 amplitude levels on 3 levels (4096 subcolumns) and 15 sensitivities",
}
RULE = "state = one vertical profile of (stratiform, convective) cells in one mode; judged in every cell"
ASSUMPTIONS = ["an exact tie between echo and sensitivity is not judged", "cells without any echo are not judged in the detection mask",
               "the top model level is kept clear of hydrometeors"]
L, H, T = 3, 5, 2
Z = np.array([250., 1000., 2600., 5200., 9000.])


def units(tier):
    u = []
    amps = 3 if tier == "quick" else 4
    zmins = [-65., -51.5, -40., -30., -20., -10., 5.] if tier == "quick" else list(range(-65, 10, 5))
    for logic in ("rad", "micro", "emp"):
        for conv in (True, False):
            for sfc in (True, False):
                for ref in (1000, 500, 3000, 1000.):
                    u.append({"logic": logic, "conv": conv, "sfc": sfc, "ref": ref, "unit": "kilometer" if ref == 3000 else "meter", "amps": amps,
                              "zmins": zmins})
    return u


def build(u):
    A = u["amps"]
    amp = np.array([0., .02, 3., .4])[:A]
    pats = list(itertools.product(itertools.product(range(A), repeat=2) if u["conv"] else [(a, 0) for a in range(A)], repeat=L))
    N = len(pats)
    P = np.array(pats)                                    # N, L, 2
    S, C = np.zeros((N, T, H), int), np.zeros((N, T, H), int)
    S[:, 0, :L], C[:, 0, :L] = P[:, :, 0], P[:, :, 1]
    S[:, 1, 1:L + 1], C[:, 1, 1:L + 1] = P[:, ::-1, 0], P[:, ::-1, 1]
    fac = 1e-3 if u["unit"] == "kilometer" else 1.
    kw = dict(z=(Z[None] + np.array([[0.], [40.]])) * fac, p=1000. * np.exp(-Z / 8000.), t=287. - 6e-3 * Z, units={"z": u["unit"]})
    lev = np.arange(H)
    sm = {"cl": (S > 0) & (lev % 2 == 0), "ci": (S > 1) & (lev % 2 == 1), "pl": (S == 1) & (lev % 2 == 1), "pi": (S > 1)}
    cm = {"cl": (C > 0), "pi": (C > 1) & (lev % 2 == 1), "pl": (C > 0) & (lev % 2 == 0), "ci": (C == 1) & (lev % 2 == 1)}
    sq = {h: amp[S] * scene.vary(T, H, N, k) for k, h in enumerate(synth.HYD)}
    cq = {h: 2 * amp[C] * scene.vary(T, H, N, k + 7) for k, h in enumerate(synth.HYD)}
    m = scene.scene(T, H, N, sm, conv_masks=cm if u["conv"] else None, qscale=sq, conv_qscale=cq, nscale={"cl": .1}, key=("p11", A), **kw)
    return m, pats, np.broadcast_to(Z[None] + np.array([[0.], [40.]]), (T, H)), sm, cm


def lin(db):
    return np.where(np.isfinite(db), 10 ** (np.nan_to_num(db) / 10.), 0.)


def run_unit(u, rec):
    import emc2
    m, pats, z, sm, cm = build(u)
    N = len(pats)
    ins = chain.inst("radar")
    z0 = ins.Z_min_1km
    for p in pats:
        rec.state((u["logic"], u["conv"], u["sfc"], p))
    rec.step(N * T * H)
    parts = ("strat", "conv") if u["conv"] else ("strat",)
    ever = {"below": 0, "above": 0, "attenuated_away": 0}
    for i, zm in enumerate(u["zmins"]):
        ins.Z_min_1km = zm
        mode = {"mode": {k: u[k] for k in ("logic", "conv", "sfc", "ref", "unit")}, "Z_min_1km": zm}
        try:
            chain.simulate(m, "radar", u["logic"], N, skip_subcol_gen=True, OD_from_sfc=u["sfc"], ref_rng=u["ref"])
        finally:
            ins.Z_min_1km = z0
        rec.trace()
        g = {k: canon(m, m.ds[k]) for k in ["sub_col_Ze_tot", "sub_col_Ze_att_tot", "Ze_min", "detect_mask", "atm_ext"] +
             ["sub_col_Ze_tot_" + p for p in parts] + ["hyd_ext_" + p for p in parts] + ["sub_col_Ze_att_tot_" + p for p in parts]}

        def need(name, got, want, ok=None, **kw):
            ok = np.isclose(got, want, rtol=1e-9, atol=1e-200, equal_nan=True) if ok is None else ok
            rec.outcome((u["logic"], u["conv"], name, bool(ok.all())))
            if not ok.all():
                j = tuple(map(int, np.argwhere(~ok)[0]))
                rec.violation("%s:%s" % (u["logic"], name), "%s at %s: %r instead of %r" % (name, list(j), g_at(got, j), g_at(want, j)),
                              dict(mode, profile=pats[j[0]] if got.ndim == 3 else None))
        need("sensitivity", g["Ze_min"], zm + 20 * np.log10(z / u["ref"]))
        tot = sum(lin(g["sub_col_Ze_tot_" + p]) for p in parts)
        need("total echo", lin(g["sub_col_Ze_tot"]), tot)
        some = np.zeros((N, T, H), bool)
        for mk in [sm] + ([cm] if u["conv"] else []):
            for v in mk.values():
                some |= v
        need("echo exactly where hydrometeors are", np.isfinite(g["sub_col_Ze_tot"]), some, g_eq(np.isfinite(g["sub_col_Ze_tot"]), some))
        trans = np.prod([g["hyd_ext_" + p] for p in parts], axis=0) * g["atm_ext"]
        need("attenuated echo", lin(g["sub_col_Ze_att_tot"]), tot * trans)
        att = g["sub_col_Ze_att_tot"]
        below = att < g["Ze_min"]
        judged = np.isfinite(att) & (np.abs(att - g["Ze_min"]) > 1e-9)
        dm = g["detect_mask"].astype(bool)
        need("detection mask", dm, below, (dm == below) | ~judged)
        ever["below"] += int((below & judged).sum())
        ever["above"] += int((~below & judged).sum())
        ever["attenuated_away"] += int((below & judged & (g["sub_col_Ze_tot"] > g["Ze_min"])).sum())
    for k, v in ever.items():
        rec.note(k, v)
    assert ever["below"] and ever["above"], ever
    rec.sample({"mode": {k: u[k] for k in ("logic", "conv", "sfc", "ref")}, "profiles": N, **ever})


def g_at(a, j):
    return float(np.broadcast_to(a, np.broadcast_shapes(np.shape(a)))[j[-np.ndim(a):]] if np.ndim(a) else a)


def g_eq(a, b):
    return np.asarray(a) == np.asarray(b)
