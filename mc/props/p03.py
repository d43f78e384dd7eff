"""P03: convective cloud fills the same leading subcolumns with the right count; stratiform cloud stays out of them."""
import itertools

import numpy as np

from .. import subcol, wide

BOUNDS = {
    "quick": "counts: all pairs of counts (0..N)x(0..N) on adjacent levels and times for N=2..6, both logics, both classes, mass around the "
             "truncation threshold; exclusion: N=3, all conv counts per class on 2 levels x all fitting stratiform counts, all permutations "
             "on a deviation bound of 2",
    "thorough": "as quick with N up to 12, and the exclusion part without deviation bound plus N=4 with deviation bound 1",
}
BOUNDS = {k: v + wide.BOUND[k] for k, v in BOUNDS.items()}
RULE = "one execution = one call chain on one input column (and one permutation sequence); distinct outcome = distinct masks"
ASSUMPTIONS = [wide.ASSUME, "stratiform and convective counts of a cell fit together into the subcolumns (overlapping prescriptions are "
               "outside the property)", "exact ties of the rounding are not judged"]


def units(tier):
    u = [{"kind": "count", "N": N, "hyd": h} for N in (range(2, 7) if tier == "quick" else range(2, 13))
         for h in ("cl", "ci", "pl", "pi")]
    if tier == "quick":
        u += [{"kind": "excl", "N": 3, "part": k, "parts": 24, "bound": 1} for k in range(24)]
        u += [{"kind": "excl", "N": 2, "part": k, "parts": 2, "bound": None} for k in range(2)]
    else:
        u += [{"kind": "excl", "N": 3, "part": k, "parts": 48, "bound": None} for k in range(48)]
        u += [{"kind": "excl", "N": 4, "part": k, "parts": 96, "bound": 1} for k in range(96)]
        u += [{"kind": "excl", "N": 2, "part": k, "parts": 2, "bound": None} for k in range(2)]
    u.append({"kind": "one"})
    u.append({"kind": "mismatch"})
    u += wide.units(tier, "conv")
    return u


def run_unit(u, rec):
    if u.get("kind") == "wide":
        return wide.run(u, rec, u["what"])
    globals()["u_" + u["kind"]](u, rec)


def u_count(u, rec):
    from emc2.simulator.subcolumn import set_convective_sub_col_frac
    N, hyd = u["N"], u["hyd"]
    off = (-.3, 0., .3)
    vals = sorted({min(1., max(0., (n + o) / N)) for n in range(N + 1) for o in off})
    pairs = list(itertools.product(vals, repeat=2))
    T = len(pairs)
    for rad in (True, False):
        for q in (0., 9e-19, 1.1e-18, 1e-5):
            m = subcol.column_model(3, T=T)
            f = np.array([[a, b, a] for a, b in pairs])
            # the mass of the middle level is varied, the others are kept above the threshold
            Q = np.full((T, 3), 1e-5)
            Q[:, 1] = q
            subcol.set_fracs(m, {hyd: f}, "conv", rad=rad, micro=not rad)
            subcol.set_fracs(m, {hyd: 1. - f}, "conv", rad=not rad, micro=rad)
            subcol.set_fracs(m, {hyd: 1. - f}, "strat")
            subcol.set_field(m, "qc_" + hyd, Q)
            m.ds["subcolumn"] = ("subcolumn", np.arange(N))
            set_convective_sub_col_frac(m, hyd, N_columns=N, use_rad_logic=rad)
            g = subcol.profs(m, "conv", (hyd,))[hyd]
            rec.check(g.shape == (N, T, 3), "shape", "mask has shape %s" % (g.shape,), {"N": N, "hyd": hyd})
            for t in range(T):
                for j in range(3):
                    keep = Q[t, j] > 1e-18 or not rad
                    want = int(np.floor(f[t, j] * N + .5)) if keep else 0
                    got = np.flatnonzero(g[:, t, j]).tolist()
                    rec.trace()
                    rec.step()
                    rec.state((N, hyd, rad, q, t, j))
                    rec.outcome((N, tuple(got)))
                    rec.check(got == list(range(want)), "conv-count:%s" % hyd,
                              "time %d level %d: fraction %.5f of %d subcolumns (q=%g, %s logic) gives convective %s in subcolumns %s, "
                              "expected the first %d" % (t, j, f[t, j], N, Q[t, j], "radiation" if rad else "microphysics", hyd, got, want),
                              {"N": N, "hyd": hyd, "frac": f[t].tolist(), "q": q, "rad": rad})
    rec.sample({"N": N, "hyd": hyd, "fractions": vals})


def u_excl(u, rec):
    from emc2.simulator.subcolumn import set_convective_sub_col_frac, set_stratiform_sub_col_frac
    N = u["N"]
    lv = [(a, b, c, d) for a in range(N + 1) for b in range(N + 1) for c in range(N + 1) for d in range(N + 1)
          if max(a, b) + max(c, d) <= N and not (a == b == c == d == 0)]
    if N > 2:       # one conv class carries the larger count: keep cl>ci, ci>cl, equal
        lv = [x for x in lv if x[2] == 0 or x[3] == 0 or x[2] == x[3] or abs(x[2] - x[3]) == 1]
    cases = [(lo, up) for lo in lv for up in lv if max(lo[:2]) and (max(lo[2:]) or max(up[2:]))]
    if N > 2:
        cases = cases[::7 if N == 3 else 101]
    for case in cases[u["part"]::u["parts"]]:
        get = lambda i: [[c[i] / N for c in case] + [0.]]

        def body(stub):
            m = subcol.column_model(3)
            subcol.set_fracs(m, {"cl": get(0), "ci": get(1)})
            subcol.set_fracs(m, {"cl": get(2), "ci": get(3)}, "conv")
            m.ds["subcolumn"] = ("subcolumn", np.arange(N))
            for h in ("cl", "ci"):
                set_convective_sub_col_frac(m, h, N_columns=N)
            set_stratiform_sub_col_frac(m, N_columns=N, parallel=False)
            return subcol.profs(m, "strat", ("cl", "ci")), subcol.profs(m, "conv", ("cl", "ci"))
        for ctx, (s, c) in subcol.run_all(body, bound=u["bound"], max_exec=50000):
            rec.trace()
            rec.step(2)
            cs, ss = subcol.sets(c["cl"] | c["ci"]), subcol.sets(s["cl"] | s["ci"])
            rec.outcome((N, case, cs, ss))
            info = {"N": N, "levels (cl,ci,conv cl,conv ci)": case}
            for j in range(2):
                rec.state((N, case[j], ss[j + 1], ss[j], cs[j]))
                rec.check(not (cs[j] & ss[j]), "exclusive",
                          "level %d: subcolumns %s carry both convective (%s) and stratiform (%s) cloud although both fit" % (
                              j, sorted(cs[j] & ss[j]), sorted(cs[j]), sorted(ss[j])), info, ctx.choices)
                for h, k in (("cl", 2), ("ci", 3)):
                    got = sorted(np.flatnonzero(c[h][:, 0, j]).tolist())
                    rec.check(got == list(range(case[j][k])), "conv-touched",
                              "level %d: convective %s sits in %s after the stratiform allocation, expected the first %d" % (
                                  j, h, got, case[j][k]), info, ctx.choices)
    rec.sample({"N": N, "cases": len(cases)})


def u_one(u, rec):
    """Generator off (one subcolumn): presence is mass above the threshold, whatever the fraction."""
    from emc2.simulator.subcolumn import (set_convective_sub_col_frac, set_stratiform_sub_col_frac, set_precip_sub_col_frac)
    qs = (0., 9e-19, 1.1e-18, 1e-5)
    grid = np.array(list(itertools.product(qs, repeat=3)))
    for rad in (True, False):
        for fr in (0., .2, 1.):
            m = subcol.column_model(3, T=len(grid))
            for k, h in enumerate(("cl", "ci", "pl", "pi")):
                subcol.set_fracs(m, {h: fr}, "conv")
                subcol.set_fracs(m, {h: fr}, "strat")
                subcol.set_field(m, "qc_" + h, np.roll(grid, k, axis=1))
                subcol.set_field(m, "qs_" + h, np.roll(grid, k + 1, axis=1)[::-1])
            m.ds["subcolumn"] = ("subcolumn", np.arange(1))
            for h in ("cl", "ci"):
                set_convective_sub_col_frac(m, h, N_columns=1, use_rad_logic=rad)
            set_stratiform_sub_col_frac(m, N_columns=1, use_rad_logic=rad, parallel=False)
            for c in (True, False):
                set_precip_sub_col_frac(m, is_conv=c, use_rad_logic=rad, parallel=False)
            for kind, pre in (("conv", "qc_"), ("strat", "qs_")):
                for h in ("cl", "ci", "pl", "pi"):
                    got = subcol.profs(m, kind, (h,))[h][0]
                    want = m.ds[pre + h].values > 1e-18
                    rec.trace(got.size)
                    rec.step(got.size)
                    rec.state((rad, fr, kind, h))
                    rec.outcome((kind, h, got.tobytes()))
                    bad = np.argwhere(got != want)
                    rec.check(len(bad) == 0, "one-subcolumn:%s" % kind,
                              lambda: "single subcolumn: %s %s is %s where q=%g (fraction %g)" % (
                                  kind, h, got[tuple(bad[0])], m.ds[pre + h].values[tuple(bad[0])], fr),
                              {"rad": rad, "frac": fr, "kind": kind, "hyd": h})


def u_mismatch(u, rec):
    """The number of subcolumns is fixed once: a different request is refused and changes nothing."""
    from emc2.simulator.subcolumn import set_convective_sub_col_frac
    for n0, n1 in itertools.permutations((2, 3, 4, 5), 2):
        m = subcol.column_model(3)
        subcol.set_fracs(m, {"cl": .5}, "conv")
        m.ds["subcolumn"] = ("subcolumn", np.arange(n0))
        set_convective_sub_col_frac(m, "cl", N_columns=n0)
        before = m.ds["conv_frac_subcolumns_cl"].values.copy()
        try:
            set_convective_sub_col_frac(m, "ci", N_columns=n1)
            ok = False
        except ValueError:
            ok = True
        rec.trace()
        rec.step()
        rec.state((n0, n1))
        rec.outcome((n0, n1, ok))
        rec.check(ok and m.num_subcolumns == n0 and np.array_equal(before, m.ds["conv_frac_subcolumns_cl"].values),
                  "mismatch", "a model with %d subcolumns accepted a request for %d" % (n0, n1), {"n0": n0, "n1": n1})
