"""P01: the stratiform cloud fraction of every grid cell is conserved by the random allocation.

Explicit exploration of the real allocator: all permutations the random module may return, all
(liquid, ice) counts on every active level, with and without columns already taken by convection.
"""
import itertools

import numpy as np

from .. import subcol, wide

BOUNDS = {
    "quick": "N=3: all (cl,ci,conv) counts on 2 active levels, all permutations; N=2: 3 active levels, all "
             "permutations; N=4,6: all (cl,ci) counts on 2 levels, permutations {id,reverse,rotations}, <=1 deviation; "
             "rounding/truncation grids",
    "thorough": "N=3: all (cl,ci,conv) counts on 2 levels and all (cl,ci) on 3 levels, all permutations; N=4: 2 levels, all "
                "permutations; N=5,6,8: 2 levels, permutation alphabet {id,reverse,rotations}, <=2 deviations",
}
BOUNDS = {k: v + wide.BOUND[k] for k, v in BOUNDS.items()}
RULE = "one execution = one sequence of permutations answered to the allocator for one input column; " \
       "distinct outcome = distinct (inputs, allocated sets)"
ASSUMPTIONS = [wide.ASSUME, "randomness reaches the allocator only through numpy's random module",
               "the top model level is never allocated (existing behaviour) and is not judged",
               "columns are driven one at a time (T=1) here; independence of time columns is property P07"]


def levels(N, conv):
    out = []
    for c in range(0, N + 1 if conv else 1):
        for a in range(N - c + 1):
            for b in range(N - c + 1):
                out.append((a, b, c))
    return out


def units(tier):
    u = []

    def add(N, L, conv, perms, bound, parts):
        for k in range(parts):
            u.append({"kind": "alloc", "N": N, "L": L, "conv": conv, "perms": perms, "bound": bound, "part": k,
                      "parts": parts})
    if tier == "quick":
        add(2, 3, False, "all", None, 4)
        add(2, 2, True, "all", None, 4)
        add(3, 2, True, "all", None, 24)
        add(4, 2, False, "cyc", 1, 16)
        add(6, 2, False, "cyc", 0, 8)
    else:
        add(2, 4, False, "all", None, 16)
        add(2, 3, True, "all", None, 16)
        add(3, 3, False, "all", None, 64)
        add(3, 2, True, "all", None, 24)
        add(4, 2, False, "all", None, 64)
        add(4, 2, True, "cyc", None, 64)
        add(5, 2, False, "cyc", 2, 32)
        add(6, 2, False, "cyc", 1, 32)
        add(8, 2, False, "cyc", 1, 32)
    for N in ((3, 4, 7) if tier == "quick" else (2, 3, 4, 5, 7, 10, 16)):
        u.append({"kind": "round", "N": N})
    u += wide.units(tier, "count")
    return u


def run_unit(u, rec):
    if u.get("kind") == "wide":
        return wide.run(u, rec, u["what"])
    if u["kind"] == "round":
        return rounding(u, rec)
    N, L = u["N"], u["L"]
    lv = levels(N, u["conv"])
    cases = list(itertools.product(lv, repeat=L))[u["part"]::u["parts"]]
    for case in cases:            # case[0] = lowest level
        explore_case(u, rec, N, case)


def explore_case(u, rec, N, case):
    from emc2.simulator.subcolumn import set_stratiform_sub_col_frac, set_convective_sub_col_frac
    L = len(case)
    H = L + 1
    conv = u["conv"]
    cl = [c[0] / N for c in case] + [0.]
    ci = [c[1] / N for c in case] + [0.]
    cv = [c[2] / N for c in case] + [0.]
    rad = (sum(c[0] + 2 * c[1] for c in case) % 2) == 0      # both logics are driven; masses are all above threshold

    def body(stub):
        m = subcol.column_model(H, process_conv=conv)
        subcol.set_fracs(m, {"cl": [cl], "ci": [ci]})
        # the fraction fields of the logic that is not selected carry different values
        subcol.set_fracs(m, {"cl": [[.37] * H], "ci": [[.81] * H]}, rad=not rad, micro=rad)
        if conv:
            subcol.set_fracs(m, {"cl": [cv]}, which="conv")
            m.ds["subcolumn"] = ("subcolumn", np.arange(N))
            for h in ("cl", "ci"):
                set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad)
        set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, parallel=False)
        p = subcol.profs(m, "strat", ("cl", "ci"))
        q = subcol.profs(m, "conv", ("cl", "ci")) if conv else None
        return subcol.sets(p["cl"]), subcol.sets(p["ci"]), (subcol.sets(q["cl"] | q["ci"]) if conv else None)
    for ctx, (a, b, c) in subcol.run_all(body, perms=u["perms"], bound=u["bound"], max_exec=200000):
        rec.trace()
        rec.step(L)
        rec.outcome((N, case, a, b))
        for j in range(L):
            rec.state((N, case[j], a[j + 1], b[j + 1], a[j], b[j]))
            for name, got, want in (("cl", len(a[j]), case[j][0]), ("ci", len(b[j]), case[j][1])):
                if got != want:
                    rec.violation("count:%s" % name,
                                  "level %d: %d subcolumns carry %s, the cell fraction %d/%d asks for %d (above: cl=%s "
                                  "ci=%s, convective: %s)" % (j, got, name, want, N, want, sorted(a[j + 1]),
                                                              sorted(b[j + 1]), sorted(c[j]) if c else None),
                                  {"N": N, "levels(cl,ci,conv) from the surface": case, "rad": rad}, ctx.choices)
    rec.sample({"N": N, "levels": case, "rad": rad})


def rounding(u, rec):
    """count = nearest integer to fraction*N on a fine fraction grid; mass at/below the threshold means no cloud under radiation
    logic and is ignored under microphysics logic."""
    from emc2.simulator.subcolumn import set_stratiform_sub_col_frac
    N = u["N"]
    fr = [k / (8. * N) for k in range(8 * N + 1) if k % 8 != 4]      # exact ties are left to the implementation
    for rad in (True, False):
        for q in (0., 1e-19, 9.9e-19, 1.1e-18, 1e-6):
            for par in ((False, None), (True, None)):
                T = len(fr)
                m = subcol.column_model(2, T=T, process_conv=False)
                subcol.set_fracs(m, {"cl": np.array([[f, 0.] for f in fr]),
                                     "ci": np.array([[f, 0.] for f in fr[::-1]])})
                for h in ("cl", "ci"):
                    subcol.set_field(m, "qs_" + h, q)
                set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, parallel=par[0])
                p = subcol.profs(m, "strat", ("cl", "ci"))
                keep = q > 1e-18 or not rad
                for h, f in (("cl", fr), ("ci", fr[::-1])):
                    got = p[h][:, :, 0].sum(axis=0)
                    for t in range(T):
                        want = int(np.floor(f[t] * N + .5)) if keep else 0
                        rec.trace()
                        rec.step()
                        rec.state((N, h, rad, q, t))
                        rec.outcome((N, want, rad, q > 1e-18))
                        rec.check(got[t] == want, "round:%s" % h,
                                  "fraction %.6f with %d subcolumns and q=%g (%s logic): %d cloudy, expected %d" % (
                                      f[t], N, q, "radiation" if rad else "microphysics", got[t], want),
                                  {"N": N, "frac": f[t], "q": q, "rad": rad, "hyd": h})
