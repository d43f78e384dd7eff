"""P12: lidar depolarization is the backscatter-weighted mean of the classes; the extinction mask marks exactly what lies behind the threshold."""
import itertools

import numpy as np

from .. import chain, scene, synth
from ..scene import canon

BOUNDS = {
    "quick": "depolarization: all 2^8 presence combinations of 4 classes x {stratiform, convective} in a cell, all 15 subsets of simulated classes, 3 ratio tables, "
             "radiation/microphysics/empirical logic; extinction: all 4^4 optical depth profiles on 4 levels around 3 thresholds, both directions",
    "thorough": "extinction on 5 levels (4^5) and 6 thresholds; subsets in every order",
}
RULE = "state = one presence combination or one optical depth profile; judged in every cell against an explicit definition"
ASSUMPTIONS = ["an exact tie between optical depth and threshold is not judged"]
HYD = synth.HYD


def units(tier):
    u = []
    subs = [c for r in range(1, 5) for c in (itertools.combinations if tier == "quick" else itertools.permutations)(HYD, r)]
    for logic in ("rad", "micro", "emp"):
        for conv in (True, False):
            for k in range(4):
                u.append({"kind": "ldr", "logic": logic, "conv": conv, "subs": subs[k::4]})
    for sfc in (True, False):
        for conv in (True, False):
            u.append({"kind": "ext", "sfc": sfc, "conv": conv, "L": 4 if tier == "quick" else 5,
                      "od": [4., 1., .3] if tier == "quick" else [4., 1., .3, 2., 8., .05]})
    return u


def run_unit(u, rec):
    (ldr if u["kind"] == "ldr" else ext)(u, rec)


def ldr(u, rec):
    import emc2
    T, H = 2, 5
    n = 8 if u["conv"] else 4
    combos = list(itertools.product((0, 1), repeat=n))
    N = len(combos) // 2
    P = np.array(combos).reshape(N, 2, n)
    mk = {c: {h: np.zeros((N, T, H), bool) for h in HYD} for c in (0, 1)}
    for b in range(n):
        a = mk[b // 4][HYD[b % 4]]
        a[:, 0, 1], a[:, 0, 3] = P[:, 0, b], P[:, 1, b]
        a[:, 1, 0], a[:, 1, 2] = P[:, 1, b], P[:, 0, b]
    qs = {h: .05 * scene.vary(T, H, N, k) for k, h in enumerate(HYD)}
    qs["pi"] = qs["pi"] * .1
    cq = {h: .03 * scene.vary(T, H, N, k + 3) for k, h in enumerate(HYD)}
    parts = ("strat", "conv") if u["conv"] else ("strat",)

    def fresh():
        return scene.scene(T, H, N, mk[0], conv_masks=mk[1] if u["conv"] else None, qscale=qs, conv_qscale=cq, nscale=qs, key=("p12", n))
    for sub in u["subs"]:
        m = fresh()
        chain.simulate(m, "lidar", u["logic"], N, skip_subcol_gen=True, hyd_types=list(sub))
        for tname, table in (("default", None), ("custom", {"cl": 0.01, "ci": 0.5, "pl": 0.2, "pi": 0.05}), ("zero", {h: 0.0 for h in HYD})):
            if table is None:
                ratios = {h: float(m.LDR_per_hyd[h].magnitude) for h in HYD}
            else:
                from emc2.core.instrument import ureg
                arg = {h: table[h] * ureg.dimensionless for h in HYD}
                emc2.simulator.lidar_moments.calc_LDR_and_ext(m, ext_OD=4., OD_from_sfc=True, hyd_types=list(sub), LDR_per_hyd=arg)
                ratios = table
            rec.trace()
            num, den = 0., 0.
            for p in parts + ("tot",):
                if p == "tot":
                    a, b = num, den
                else:
                    beta = {h: canon(m, m.ds["sub_col_beta_p_%s_%s" % (h, p)]) for h in sub}
                    b = sum(beta.values())
                    a = sum(beta[h] * ratios[h] for h in sub)
                    num, den = num + a, den + b
                with np.errstate(all="ignore"):
                    want = np.where(b > 0, a / b, np.nan)
                got = canon(m, m.ds["sub_col_LDR_" + p])
                ok = np.isclose(got, want, rtol=1e-9, atol=0, equal_nan=True)
                rec.step(ok.size)
                rec.outcome((u["logic"], u["conv"], sub, tname, p, bool(ok.all())))
                if not ok.all():
                    i = tuple(map(int, np.argwhere(~ok)[0]))
                    rec.violation("ldr:%s:%s" % (tname, p), "depolarization of %s clouds at %s is %r, the weighted mean of the classes %s is %r" % (
                        p, list(i), float(got[i]), list(sub), float(want[i])), {"classes": list(sub), "table": tname, "logic": u["logic"], "conv": u["conv"]})
                rec.check(bool((np.isfinite(got) == (b > 0)).all()), "ldr:defined", "depolarization not defined exactly where there is backscatter",
                          {"classes": list(sub), "logic": u["logic"]})
        for c in combos:
            rec.state((u["logic"], u["conv"], sub, c))
    rec.sample({"kind": "ldr", "logic": u["logic"], "subcolumns": N, "subsets": len(u["subs"])})


def ext(u, rec):
    L, T = u["L"], 2
    H = L + 2
    amp = np.array([0., .2, 1., 5.])
    pats = list(itertools.product(range(4), repeat=L))
    N = len(pats)
    P = np.array(pats)
    lev = np.zeros((N, T, H), int)
    lev[:, 0, :L] = P
    lev[:, 1, 1:L + 1] = P
    a = amp[lev]
    mk = {"cl": a > 0, "ci": np.zeros((N, T, H), bool), "pl": np.zeros((N, T, H), bool), "pi": np.zeros((N, T, H), bool)}
    cm = {"pi": a > .5} if u["conv"] else None
    for od in u["od"]:
        for via in ("argument", "instrument"):
            m = scene.scene(T, H, N, mk, conv_masks=cm, qscale={"cl": a * .05 * scene.vary(T, H, N, 1)}, key=("p12e", L))
            ins = chain.inst("lidar")
            old = ins.ext_OD
            kw = {"ext_OD": od} if via == "argument" else {}
            old_eta, eta = ins.eta, {"argument": .6, "instrument": .85}[via]
            if via == "argument":
                kw["eta"] = eta
            try:
                if via == "instrument":
                    ins.ext_OD, ins.eta = od, eta
                chain.simulate(m, "lidar", "rad", N, skip_subcol_gen=True, OD_from_sfc=u["sfc"], **kw)
            finally:
                ins.ext_OD, ins.eta = old, old_eta
            rec.trace()
            tot = canon(m, m.ds["sub_col_OD_tot"])
            parts = ("strat", "conv") if u["conv"] else ("strat",)
            s = sum(canon(m, m.ds["sub_col_OD_tot_" + p]) for p in parts)
            rec.check(bool(np.allclose(tot, s, rtol=1e-12)), "ext:total-od", "total optical depth is not stratiform plus convective", {"sfc": u["sfc"]})
            for f in ("beta_p", "alpha_p"):
                x = sum(canon(m, m.ds["sub_col_%s_tot_%s" % (f, p)]) for p in parts)
                rec.check(bool(np.allclose(canon(m, m.ds["sub_col_%s_tot" % f]), x, rtol=1e-12)), "ext:total-" + f,
                          "total %s is not stratiform plus convective" % f, {"sfc": u["sfc"]})
            bm, tau = canon(m, m.ds["sigma_180_vol"]), canon(m, m.ds["tau"])
            want = (bm + canon(m, m.ds["sub_col_beta_p_tot"])) * tau * np.exp(-2 * eta * tot)
            rec.check(bool(np.allclose(canon(m, m.ds["sub_col_beta_att_tot"]), want, rtol=1e-9, atol=0)), "ext:total-att",
                      "total attenuated backscatter is not (molecular + particles) attenuated by both", {"sfc": u["sfc"], "eta": eta, "eta_by": via})
            got = canon(m, m.ds["ext_mask"])
            far = tot > od
            order = range(H) if u["sfc"] else range(H - 1, -1, -1)
            want = np.where(far, 2, 0)
            prev = None
            for k in order:
                if prev is not None:
                    want[:, :, prev] = np.where(far[:, :, k] & ~far[:, :, prev], 1, want[:, :, prev])
                prev = k
            judged = ~(np.abs(tot - od) < 1e-9).any(axis=2)
            ok = (got == want) | ~judged[:, :, None]
            rec.step(ok.size)
            for i, p in enumerate(pats):
                rec.state((u["sfc"], u["conv"], od, p))
            rec.outcome((od, via, u["sfc"], bool(ok.all())))
            rec.note("extinct_cells", int((want == 2).sum()))
            rec.note("boundary_cells", int((want == 1).sum()))
            if not ok.all():
                i = tuple(map(int, np.argwhere(~ok)[0]))
                rec.violation("ext:mask", "extinction mask of profile %s at %s is %r instead of %r (threshold %r set by %s)" % (
                    list(pats[i[0]]), list(i), float(got[i]), int(want[i]), od, via), {"profile": list(pats[i[0]]), "sfc": u["sfc"], "od": od, "via": via})
            assert (want == 2).any() and (want == 1).any() and (want == 0).any()
    rec.sample({"kind": "ext", "sfc": u["sfc"], "profiles": N})
