"""P13: lidar and radar-sounding classification masks give every cell the class its signals fall in."""
import itertools
import math

import numpy as np

from .. import chain, scene, synth
from ..scene import canon

BOUNDS = {
    "quick": "lidar: the full product of 29 backscatter values (both sides of every threshold) x 15 depolarization ratios (knots, their neighbours, outside, absent) x "
             "5 optical depths, for the instrument's table and 8 custom tables, every option; radar: the full product of cloud presence (stratiform, convective) x "
             "relation of the three echoes to the sensitivity, all 15 height ranges; whole chains over 256 presence combinations",
    "thorough": "as quick with 60 backscatter values, 40 custom tables and three instruments",
}
RULE = "state = one combination of signals in a cell; judged in every cell of every mask against the definition"
ASSUMPTIONS = ["an exact tie between a signal and a threshold is not judged"]
LDRS = [0., .03, .05, .0999, .1000005, .15, .1999, .2000005, .3, .6, .999, 1., 1.5, np.nan, .1]
ODS = [0., 3.99, 4.01, 50., np.nan]


def tables(tier):
    i = synth.make_instrument("lidar")
    t = {"default": i.beta_p_phase_thresh,
         "one": [{'class': 'a', 'class_ind': 1, 'LDR': [0., 1.], 'beta_p': [1e-6, 1e-4]}]}
    base = [[1e-6, 1e-6, 3e-6], [2e-5, 1e-5, 1e-4], [3e-4, 4e-3, 1.]]
    n = 0
    for perm in itertools.permutations((1, 2, 3)):
        t["perm%s" % (perm,)] = [{'class': 'c%d' % c, 'class_ind': c, 'LDR': [0., .15, 1.], 'beta_p': base[k]} for k, c in enumerate(perm)]
    t["two"] = [{'class': 'b', 'class_ind': 2, 'LDR': [0., .05, 1.], 'beta_p': [5e-7, 2e-5, 2e-6]},
                {'class': 'a', 'class_ind': 1, 'LDR': [.1, .3], 'beta_p': [5e-5, 1e-3]}]
    if tier != "quick":
        for ends in itertools.product((1e-6, 3e-5), (1e-4, 2e-3)):
            for perm in itertools.permutations((1, 2)):
                for knot in (.1, .2, .6):
                    n += 1
                    t["t%d" % n] = [{'class': 'c%d' % c, 'class_ind': c, 'LDR': [0., knot, 1.],
                                     'beta_p': [e, e * 3, e * (10 if c == 1 else .5)]} for e, c in zip(ends, perm)]
    return t


def interp_log(x, xs, ys):
    """Threshold at LDR = x (scalar code, independent of numpy.interp)."""
    if math.isnan(x):
        return math.nan
    if x <= xs[0]:
        return math.log10(ys[0])
    if x >= xs[-1]:
        return math.log10(ys[-1])
    for a, b, c, d in zip(xs, xs[1:], ys, ys[1:]):
        if a <= x <= b:
            lc, ld = math.log10(c), math.log10(d)
            return lc + (ld - lc) * (x - a) / (b - a)


def classify(beta, ldr, od, table, ext_od, remove):
    """(class, judged) from the definition."""
    if not (beta > 0) or math.isnan(ldr):
        return 0, True
    c, lb, ok = 0, math.log10(beta), True
    for e in table:
        thr = interp_log(ldr, e["LDR"], e["beta_p"])
        if abs(lb - thr) < 1e-9:
            ok = False
        if lb >= thr:
            c = e["class_ind"]
    if remove and od > ext_od:
        c = 0
    return c, ok


def units(tier):
    u = [{"kind": "lidar", "table": k, "conv": conv, "nb": 1 if tier == "quick" else 2, "tier": tier} for k in tables(tier) for conv in (True, False)]
    u += [{"kind": "radar", "conv": c} for c in (True, False)]
    u += [{"kind": "chain", "inst": i, "logic": lg, "conv": c} for i in ("radar", "lidar") for lg in ("rad", "micro", "emp") for c in (True, False)]
    return u


def run_unit(u, rec):
    {"lidar": lidar, "radar": radar, "chain": whole}[u["kind"]](u, rec)


def lidar(u, rec):
    from emc2.simulator.classification import lidar_classify_phase
    table = tables(u["tier"])[u["table"]]
    vals = sorted({v for e in table for v in e["beta_p"]})
    betas = [0., np.nan, 1e-12, 1e-7, 8e-7, 1.5e-6, 7e-6, 1.2e-5, 5e-5, 3e-4, 7e-4, 5e-3, .5, 20.]
    betas += [v * f for v in vals for f in (1 - 1e-6, 1 + 1e-6)]
    if u["nb"] > 1:
        betas += list(np.geomspace(1e-7, 2., 31))
    cells = list(itertools.product(betas, LDRS, ODS))
    H = 15
    n = -(-len(cells) // (2 * H)) * 2 * H
    cells = (cells * 2)[:n]
    arrs = [np.array([c[k] for c in cells]).reshape(-1, 2, H) for k in range(3)]
    N = arrs[0].shape[0]
    m = scene.scene(2, H, N, {}, conv_masks={} if u["conv"] else None, key="p13l")
    ins = synth.make_instrument("lidar")
    names = ("strat", "conv", "tot") if u["conv"] else ("tot",)
    fld = {}
    for k, nm in enumerate(names):
        sh = [np.roll(a, 7 * k, axis=0)[:, ::(-1) ** k] for a in arrs]
        fld[nm] = sh
        suf = "" if nm == "tot" else "_" + nm
        for a, f in zip(sh, ("sub_col_beta_p_tot" + suf, "sub_col_LDR_" + nm, "sub_col_OD_tot" + suf)):
            scene.put(m, f, a)
    if not u["conv"]:
        for f in ("sub_col_LDR_strat", "sub_col_beta_p_tot_strat", "sub_col_OD_tot_strat"):
            scene.put(m, f, np.full_like(arrs[0], 0.5))
    for remove, tonan, given in itertools.product((True, False), (True, False), (True, False)):
        ins.beta_p_phase_thresh = [{'class': 'x', 'class_ind': 1, 'LDR': [0., 1.], 'beta_p': [1e-9, 1e-9]}] if given else table
        for ext in (4., 20.):
            ins.ext_OD = ext
            out = lidar_classify_phase(ins, m, beta_p_phase_thresh=table if given else None, convert_zeros_to_nan=tonan, remove_sub_detect=remove)
            rec.trace()
            for nm in names:
                fn = "phase_mask_HSRL_all_hyd" if nm == "tot" else nm + "_phase_mask_HSRL"
                got = canon(out, out.ds[fn]).astype(float)
                b, l, o = fld[nm]
                leg = list(out.ds[fn].attrs["legend"])
                want_leg = [e["class"] for e in sorted(table, key=lambda e: e["class_ind"])]
                rec.check(leg == want_leg, "lidar:legend", "legend %r instead of %r" % (leg, want_leg), {"table": u["table"]})
                for j in np.ndindex(*got.shape):
                    c, ok = classify(float(b[j]), float(l[j]), float(o[j]), table, ext, remove)
                    g = 0. if math.isnan(got[j]) else got[j]
                    good = (g == c or not ok) and (math.isnan(got[j]) == (g == 0) if tonan else not math.isnan(got[j]))
                    if not good:
                        rec.violation("lidar:class", "class %r instead of %r in %s" % (got[j], c, fn),
                                      {"beta_p": float(b[j]), "LDR": float(l[j]), "OD": float(o[j]), "table": u["table"], "remove_sub_detect": remove,
                                       "convert_zeros_to_nan": tonan, "given": given, "ext_OD": ext})
                rec.outcome((u["table"], nm, remove, tonan, tuple(np.unique(got[np.isfinite(got)]))))
                rec.note("cells", got.size)
    for c in cells:
        rec.state((u["table"], c))
    rec.step(len(cells) * 16 * len(names))
    rec.sample({"table": u["table"], "cells": len(cells)})


def radar(u, rec):
    from emc2.simulator.classification import radar_classify_phase
    H = 6
    names = ("strat", "conv", "tot") if u["conv"] else ("tot",)
    combos = list(itertools.product((0, 1), (0, 1), *([(-20., 3., np.nan, -1e-6, 1e-6)] * len(names))))
    n = -(-len(combos) // H) * H
    combos = (combos * 2)[:n]
    P = np.array(combos).reshape(-1, 1, H, 2 + len(names))
    P = np.concatenate([P, P[::-1, :, ::-1]], axis=1)
    N = P.shape[0]
    z = np.array([200., 700., 1500., 2600., 4000., 7000.])
    m = scene.scene(2, H, N, {"cl": P[..., 0] > 0}, conv_masks={"cl": P[..., 1] > 0} if u["conv"] else None, key="p13r", z=z)
    zmin = -50. + 20 * np.log10(z / 1000.)[None, :] + np.array([[0.], [1.5]])
    m.ds["Ze_min"] = (m.ds[m.T_field].dims, zmin)
    for k, nm in enumerate(names):
        scene.put(m, "sub_col_Ze_att_tot" + ("" if nm == "tot" else "_" + nm), zmin[None] + P[..., 2 + k])
    if not u["conv"]:
        scene.put(m, "sub_col_Ze_att_tot_strat", np.full(P.shape[:3], 99.))
    ins = chain.inst("radar")
    for c in combos:
        rec.state(("radar", u["conv"], c))
    rngs = [None] + [(a, b) for a, b in itertools.combinations([0., 500., 1500.5, 3000., 6999., 1e5], 2)] + [[700.1, 4000.1]]
    for rg, tonan in itertools.product(rngs, (True, False)):
        out = radar_classify_phase(ins, m, mask_height_rng=rg, convert_zeros_to_nan=tonan)
        rec.trace()
        for k, nm in enumerate(names):
            fn = "phase_mask_SRAD_sounding_all_hyd" if nm == "tot" else nm + "_phase_mask_SRAD_sounding"
            got = canon(out, out.ds[fn]).astype(float)
            cld = {"strat": P[..., 0] > 0, "conv": P[..., 1] > 0, "tot": (P[..., 0] > 0) | ((P[..., 1] > 0) & u["conv"])}[nm]
            echo = P[..., 2 + k] > 0
            want = np.where(cld & echo, 2, np.where(cld, 1, np.where(echo, 3, 0))).astype(float)
            if rg is not None:
                want = np.where((z >= rg[0]) & (z <= rg[1]), want, 0.)
            if tonan:
                want = np.where(want == 0, np.nan, want)
            ok = (got == want) | (np.isnan(got) & np.isnan(want))
            rec.outcome((nm, repr(rg), tonan))
            rec.step(got.size)
            if not ok.all():
                j = tuple(map(int, np.argwhere(~ok)[0]))
                rec.violation("radar:class", "class %r instead of %r in %s" % (got[j], want[j], fn),
                              {"strat/conv cloud and echo relative to the sensitivity": P[j].tolist(), "height": z[j[2]], "range": rg, "nan": tonan})
    rec.sample({"kind": "radar", "combos": len(combos), "ranges": len(rngs)})


def whole(u, rec):
    """Classification at the end of a whole simulation follows from the signals of that simulation."""
    T, H = 2, 6
    n = 8 if u["conv"] else 4
    combos = list(itertools.product((0, 1), repeat=n))
    P = np.array(combos * (2 if u["conv"] else 32)).reshape(-1, 2, 4, n)
    N = P.shape[0]
    S, C = np.zeros((N, T, H, 4), bool), np.zeros((N, T, H, 4), bool)
    S[:, :, :4] = P[..., :4]
    if u["conv"]:
        C[:, :, :4] = P[..., 4:]
    sq = {h: scene.vary(T, H, N, k) * .3 for k, h in enumerate(synth.HYD)}
    m = scene.scene(T, H, N, {h: S[..., i] for i, h in enumerate(synth.HYD)}, conv_masks={h: C[..., i] for i, h in enumerate(synth.HYD)} if u["conv"] else None,
                    qscale=sq, conv_qscale=sq, key="p13w", t=np.array([280., 272., 268., 255., 231., 225.]))
    ins = chain.inst(u["inst"])
    for tonan in (False, True):
        kw = {} if u["inst"] == "lidar" else {"mask_height_rng": (600., 3600.)}
        chain.simulate(m, u["inst"], u["logic"], N, skip_subcol_gen=True, do_classify=True, convert_zeros_to_nan=tonan, **kw)
        rec.trace()
        names = ("strat", "conv", "tot") if u["conv"] else ("tot",)
        g = lambda f: canon(m, m.ds[f])
        for nm in names:
            suf = "" if nm == "tot" else "_" + nm
            cld = S[..., 0] | C[..., 0] if nm == "tot" else (S if nm == "strat" else C)[..., 0]
            if u["inst"] == "radar":
                fn = "phase_mask_SRAD_sounding_all_hyd" if nm == "tot" else nm + "_phase_mask_SRAD_sounding"
                e, zm = g("sub_col_Ze_att_tot" + suf), g("Ze_min")
                z = g(m.z_field)
                judged = ~(np.abs(e - zm) < 1e-9)
                echo = e > zm
                want = np.where(cld & echo, 2, np.where(cld, 1, np.where(echo, 3, 0))).astype(float)
                want = np.where((z >= 600.) & (z <= 3600.), want, 0.)
            else:
                fn = "phase_mask_HSRL_all_hyd" if nm == "tot" else nm + "_phase_mask_HSRL"
                b, l, o = g("sub_col_beta_p_tot" + suf), g("sub_col_LDR_" + nm), g("sub_col_OD_tot" + suf)
                want, judged = np.zeros(b.shape), np.ones(b.shape, bool)
                for j in np.ndindex(*b.shape):
                    want[j], judged[j] = classify(float(b[j]), float(l[j]), float(o[j]), ins.beta_p_phase_thresh, ins.ext_OD, True)
            got = g(fn).astype(float)
            if tonan:
                want = np.where(want == 0, np.nan, want)
            ok = (got == want) | (np.isnan(got) & np.isnan(want)) | ~judged
            rec.step(got.size)
            rec.outcome((u["inst"], u["logic"], nm, tuple(np.unique(got[np.isfinite(got)]))))
            for v in np.unique(got[np.isfinite(got)]):
                rec.note("%s class %d" % (u["inst"], v), int((got == v).sum()))
            if not ok.all():
                j = tuple(map(int, np.argwhere(~ok)[0]))
                rec.violation("chain:%s" % u["inst"], "class %r instead of %r in %s" % (got[j], want[j], fn),
                              dict(u, cell=list(j), strat=S[j].tolist(), conv=C[j].tolist(), convert_zeros_to_nan=tonan))
    for c in combos:
        rec.state((u["inst"], u["logic"], u["conv"], c))
    rec.sample(u)
