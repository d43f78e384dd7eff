"""P09: the totals over hydrometeor classes are exactly composed of the single-class results, for every subset and order of classes."""
import itertools

import numpy as np

from .. import chain, scene, subcol, synth
from ..scene import canon
from . import p07

BOUNDS = {
    "quick": "all 64 ordered subsets of the 4 classes; scenes containing every one of the 16 presence combinations of the classes (plus a second column in "
             "another vertical order); radar and lidar x radiation (ModelE, CESM) / microphysics (2 fall speed corrections) / empirical logic, stratiform and convective, both directions",
    "thorough": "as quick with mie_for_ice on and off, three instrument bands and three mass scalings per class",
}
RULE = "one execution = one simulation of one ordered subset of classes, compared with the composition of the single-class simulations"
ASSUMPTIONS = ["the top model level is kept clear of hydrometeors"]
HYD = synth.HYD
N, H, T = 4, 6, 2


def subsets():
    for r in range(1, 5):
        for c in itertools.permutations(HYD, r):
            yield c


def masks():
    """16 presence combinations laid out over 4 subcolumns x 4 levels (level 0..3), level 4 mixed, top level clear."""
    mk = {h: np.zeros((N, T, H), bool) for h in HYD}
    for i in range(16):
        for b, h in enumerate(HYD):
            if i >> b & 1:
                mk[h][i % 4, 0, i // 4] = True
                mk[h][(i // 4 + i) % 4, 1, 3 - i // 4] = True
                if i % 3 == 0:
                    mk[h][(i + 1) % 4, :, 4] = True
    return mk


def build(u):
    mk = masks()
    qs = {h: scene.vary(T, H, N, k) * u.get("scale", 1.) * (8. if u["conv"] else 1.) for k, h in enumerate(HYD)}
    ns = {h: 1. / scene.vary(T, H, N, k + 5) for k, h in enumerate(HYD)}
    kw = dict(rad=u["rad"], rhoa_corr=u["corr"], z=np.array([300., 900., 1700., 2600., 4200., 6400.])[None, :] + np.array([[0.], [55.]]),
              t=np.array([286., 281., 270., 262., 255., 240.])[None, :] + np.array([[0.], [2.]]))
    if u["conv"]:
        m = scene.scene(T, H, N, {h: False for h in HYD}, conv_masks=mk, conv_qscale=qs, nscale=ns, key="p09", **kw)
    else:
        m = scene.scene(T, H, N, mk, qscale=qs, nscale=ns, key="p09", **kw)
    if u["rad"] == "CESM":
        p07.add_mu_lambda(m, T)
        m.mu_field, m.lambda_field = dict(m.mu_field), dict(m.lambda_field)
    return m


def units(tier):
    u = []
    base = []
    for kind in ("radar", "lidar"):
        for logic, conv, rad, corr in (("rad", False, "ModelE", True), ("rad", True, "ModelE", False), ("rad", False, "CESM", False),
                                       ("rad", True, "CESM", True), ("micro", False, "ModelE", True), ("micro", False, "CESM", False),
                                       ("emp", False, "ModelE", False), ("emp", True, "ModelE", False)):
            for sfc in (True, False):
                base.append({"kind": kind, "logic": logic, "conv": conv, "rad": rad, "corr": corr, "sfc": sfc, "mie": False})
    if tier == "quick":
        for i, b in enumerate(base):
            if b["logic"] == "micro":
                b["mie"] = b["rad"] == "ModelE"
        u = base
    else:
        for b in base:
            for mie in (False, True):
                for sc in (.2, 1., 4.):
                    u.append(dict(b, mie=mie, scale=sc))
    out = []
    for b in u:
        parts = 4 if b["logic"] == "micro" else 2
        out += [dict(b, part=k, parts=parts) for k in range(parts)]
    return out


def run(u, hyds):
    m = build(u)
    chain.moments(m, u["kind"], u["conv"], u["logic"], hyd_types=list(hyds), OD_from_sfc=u["sfc"], mie_for_ice=u["mie"])
    return {str(k): canon(m, m.ds[k]) for k in m.ds.data_vars if str(k).startswith(("sub_col", "hyd_ext", "atm_ext"))}, m


def lin(db):
    return np.where(np.isfinite(db), 10 ** (np.nan_to_num(db) / 10.), 0.)


def close(a, b, rtol=1e-9, atol=0.):
    return np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def where(a, b, rtol=1e-9, atol=0.):
    i = tuple(np.argwhere(~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True))[0])
    return "at %s: %r vs %r" % (list(map(int, i)), float(a[i]), float(b[i]))


def run_unit(u, rec):
    cs = "conv" if u["conv"] else "strat"
    single = {h: run(u, (h,))[0] for h in HYD}
    mk = masks()
    tag = "%s:%s" % (u["kind"], u["logic"])
    for n, sub in enumerate(subsets()):
        if n % u["parts"] != u["part"]:
            continue
        got, m = run(u, sub)
        rec.trace()
        rec.step(len(sub))
        rec.state((u["kind"], u["logic"], cs, u["rad"], u["sfc"], u["corr"], u["mie"], sub))
        case = {"classes": list(sub), "mode": {k: u[k] for k in ("kind", "logic", "conv", "rad", "sfc", "corr", "mie")}}

        def need(name, want, rtol=1e-9, atol=0.):
            ok = close(got[name], want, rtol, atol)
            rec.outcome((tag, name, len(sub), ok))
            if not ok:
                rec.violation("%s:%s" % (tag, name.replace("_" + cs, "")), "classes %s: %s is not composed of the single-class results, %s" % (
                    list(sub), name, where(got[name], want, rtol, atol)), case)
        prefix = ("sub_col_Ze_", "sub_col_Vd_", "sub_col_sigma_d_") if u["kind"] == "radar" else \
            ("sub_col_beta_p_", "sub_col_alpha_p_", "sub_col_OD_")
        micro = u["logic"] == "micro"
        for h in sub:
            for p in prefix:
                f = p + h + "_" + cs
                if f in single[h]:
                    need(f, single[h][f])
            if u["kind"] == "radar":
                present = lin(single[h]["sub_col_Ze_%s_%s" % (h, cs)]) > 0
                if not np.array_equal(present, mk[h]):
                    rec.violation(tag + ":presence", "class %s: echo exactly where the class is present fails" % h, case)
        if u["kind"] == "radar":
            z = {h: lin(single[h]["sub_col_Ze_%s_%s" % (h, cs)]) for h in sub}
            tot = sum(z.values())
            zt = lin(got["sub_col_Ze_tot_" + cs])
            if not close(zt, tot):
                rec.violation(tag + ":Ze_tot", "classes %s: total reflectivity is not the sum of the classes, %s" % (
                    list(sub), where(zt, tot)), case)
            need("hyd_ext_" + cs, np.prod([single[h]["hyd_ext_" + cs] for h in sub], axis=0))
            e = got["hyd_ext_" + cs]
            if not (np.all(np.isfinite(e)) and np.all(e <= 1) and np.all(e >= 0)):
                rec.violation(tag + ":transmittance", "classes %s: transmittance not in [0,1]" % list(sub), case)
            za = lin(got["sub_col_Ze_att_tot_" + cs])
            want = tot * np.nan_to_num(e, nan=1.) * np.broadcast_to(got["atm_ext"], e.shape)
            if not close(za, want):
                rec.violation(tag + ":Ze_att", "classes %s: attenuated reflectivity is not reflectivity x transmittances, %s" % (
                    list(sub), where(za, want)), case)
            if micro:
                with np.errstate(all="ignore"):
                    V = sum(np.nan_to_num(z[h] * single[h]["sub_col_Vd_%s_%s" % (h, cs)]) for h in sub) / tot
                    need("sub_col_Vd_tot_" + cs, V, 1e-8)
                    s2 = sum(np.nan_to_num(z[h] * (single[h]["sub_col_sigma_d_%s_%s" % (h, cs)] ** 2 + (
                        single[h]["sub_col_Vd_%s_%s" % (h, cs)] - V) ** 2)) for h in sub) / tot
                    need("sub_col_sigma_d_tot_" + cs, np.sqrt(s2), 1e-6, 1e-9)
        else:
            for p in prefix:
                need(p + "tot_" + cs, sum(single[h][p + h + "_" + cs] for h in sub))
            for h in sub:
                a = single[h]["sub_col_alpha_p_%s_%s" % (h, cs)]
                if not np.array_equal(a > 0, mk[h]):
                    rec.violation(tag + ":presence", "class %s: extinction exactly where the class is present fails" % h, case)
    rec.sample({"mode": {k: u[k] for k in ("kind", "logic", "conv", "rad")}, "fields": len(single["cl"])})
