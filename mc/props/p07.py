"""P07: every time column is simulated on its own: its result does not depend on which columns accompany it, nor on the order."""
import itertools

import numpy as np

from .. import chain, scene, subcol, synth
from ..scene import describe, diff_fields, out_fields

BOUNDS = {
    "quick": "all sequences of length 2 and 60 of length 3 over 6 archetype columns, sequences of 130 and 300 columns, radar and lidar x radiation/microphysics/empirical logic, with and without convection",
    "thorough": "all sequences of length 2 and 3 over 6 archetype columns, same modes, plus both integration directions and CESM family",
}
RULE = "one execution = one full simulation of one sequence of columns, each column compared with its stand-alone simulation"
ASSUMPTIONS = ["random answers are fixed functions of the request"]
N, H = 3, 5

# archetypes: (cl, ci, pl, pi counts per level from the surface), conv count, temperature offset, mass scale
ARCH = {
    "clear": ([(0, 0, 0, 0)] * 5, [0] * 5, 0., 1.),
    "warm": ([(0, 0, 1, 0), (2, 0, 2, 0), (1, 0, 0, 0), (0, 0, 0, 0), (0, 0, 0, 0)], [0] * 5, 5., 1.3),
    "mixed": ([(0, 0, 0, 1), (1, 1, 0, 2), (2, 1, 1, 2), (1, 2, 0, 1), (0, 0, 0, 0)], [0, 1, 1, 0, 0], -25., .7),
    "over": ([(3, 3, 3, 3), (3, 3, 3, 3), (3, 2, 0, 3), (0, 3, 0, 3), (0, 0, 0, 0)], [0] * 5, -12., 2.1),
    "cirrus": ([(0, 0, 0, 0), (0, 0, 0, 0), (0, 1, 0, 1), (0, 2, 0, 2), (0, 0, 0, 0)], [0] * 5, -30., .4),
    "conv": ([(1, 0, 2, 0), (1, 0, 2, 1), (1, 1, 1, 1), (0, 1, 0, 1), (0, 0, 0, 0)], [2, 2, 2, 1, 0], -3., 1.7),
}
NAMES = sorted(ARCH)


def build(names, conv, rad="ModelE", relvar=True):
    T = len(names)
    z0 = 300. + 1500. * np.arange(H) + 40. * np.arange(H) ** 2
    off = np.array([ARCH[n][2] for n in names])[:, None]
    sc = np.array([ARCH[n][3] for n in names])[:, None]
    z = z0 + off * 2.
    t = 288. + off - 6.5e-3 * z0
    p = 1000. * np.exp(-z0 / 8000.) * (1 + off * 1e-3)
    qv = 6e-3 * np.exp(-z0 / 2500.) * sc
    lev = np.arange(H)
    fr = {h: np.array([[c[i] / N for c in ARCH[n][0]] for n in names]) for i, h in enumerate(synth.HYD)}
    cf = {h: np.array([[max(0, c - (i % 2)) / N for c in ARCH[n][1]] for n in names]) for i, h in enumerate(synth.HYD)}
    q = {h: scene.QREF[h] * sc * (1 + .1 * lev) * (fr[h] > 0) for h in synth.HYD}
    qc = {h: scene.QREF[h] * sc * (2 + .1 * lev) * (cf[h] > 0) for h in synth.HYD}
    NN = {h: scene.NREF[h] * sc * (1 + .05 * lev) * (fr[h] > 0) for h in synth.HYD}
    re = {h: {"cl": 8., "pl": 120., "ci": 35., "pi": 150.}[h] * (1 + .1 * sc) * np.ones(H) for h in synth.HYD}
    m = synth.make_model(T, H, strat_frac=fr, conv_frac=cf, q_strat=q, q_conv=qc, N=NN, re=re, process_conv=conv, z=z, p=p, t=t,
                         qv=qv, rad=rad, rhoa_corr=True, relvar=(.4 + .3 * sc + .05 * lev) if relvar else None)
    if rad == "CESM":
        add_mu_lambda(m, T)
    return m


def add_mu_lambda(m, T):
    """mu/lambda of the liquid classes (CESM-like radiation), inside the rectangle of the table."""
    names = {}
    for i, h in enumerate(("cl", "pl")):
        base = np.asarray(m.ds["qs_" + h].values)
        m.ds["mu_" + h] = (m.ds["t"].dims, 3. + i + 2e2 * base)
        m.ds["la_" + h] = (m.ds["t"].dims, (2e4 if i == 0 else 3e3) * (1 + 1e3 * base))
        names[h] = (("mu_" + h), ("la_" + h))
    m.mu_field = {"cl": names["cl"][0], "pl": names["pl"][0], "ci": None, "pi": None}
    m.lambda_field = {"cl": names["cl"][1], "pl": names["pl"][1], "ci": None, "pi": None}


def long(n):
    """A sequence of n columns in which every archetype follows every other."""
    return [NAMES[(i * 5 + i // 6 + (i // 36) * 7) % len(NAMES)] for i in range(n)]


def units(tier):
    u = []
    seqs2 = list(itertools.product(NAMES, repeat=2))
    seqs3 = list(itertools.product(NAMES, repeat=3))
    if tier == "quick":
        seqs3 = seqs3[::11]
    combos = [("radar", "rad", True, "ModelE", True), ("radar", "micro", True, "ModelE", True), ("radar", "emp", False, "ModelE", True),
              ("lidar", "rad", True, "ModelE", False), ("lidar", "micro", True, "ModelE", True), ("lidar", "emp", False, "ModelE", True),
              ("radar", "rad", True, "CESM", False), ("lidar", "rad", False, "CESM", True)]
    if tier != "quick":
        combos += [(a, b, c, d, not e) for a, b, c, d, e in combos]
    for kind, logic, conv, rad, sfc in combos:
        s = seqs2 + seqs3
        parts = 6 if tier == "quick" else 12
        if logic == "micro" and tier == "quick":
            s = seqs2 + seqs3[::2]
        for k in range(parts):
            u.append({"kind": kind, "logic": logic, "conv": conv, "rad": rad, "sfc": sfc, "seqs": s[k::parts]})
        u.append({"kind": kind, "logic": logic, "conv": conv, "rad": rad, "sfc": sfc, "seqs": [long(n) for n in ((130, 300) if tier == "quick" else (64, 127, 128, 129, 255, 256, 257, 300, 500))]})
    return u


def run(names, u):
    m = build(names, u["conv"], u["rad"])
    chain.simulate(m, u["kind"], u["logic"], N, do_classify=True, OD_from_sfc=u["sfc"])
    return {k: v for k, v in out_fields(m).items() if v.ndim >= 2}


def cut(v, t):
    return v[:, t] if v.ndim >= 3 else v[t]


def run_unit(u, rec):
    solo = {n: {k: cut(v, 0) for k, v in run([n], u).items()} for n in NAMES}
    for names in u["seqs"]:
        got = run(names, u)
        rec.trace()
        for t, n in enumerate(names):
            g = {k: cut(v, t) for k, v in got.items()}
            rec.step()
            rec.state((u["kind"], u["logic"], u["rad"], tuple(names) if len(names) < 9 else len(names), t))
            bad = diff_fields(solo[n], g, rtol=1e-9, atol=1e-300)
            rec.outcome((u["kind"], u["logic"], n, bool(bad)))
            if bad:
                rec.violation("column:%s:%s" % (u["kind"], u["logic"]),
                              "column %r at time %d of %s differs from its stand-alone simulation: %s" % (
                                  n, t, list(names)[:9], describe(solo[n], g, bad[0])),
                              {"sequence": list(names)[:t + 2], "columns": len(names), "time": t, "fields": bad[:6], "mode": [u["kind"], u["logic"], u["rad"], u["conv"]]})
    rec.sample({"sequences": len(u["seqs"]), "fields": len(solo["mixed"]), "mode": [u["kind"], u["logic"], u["rad"]]})
