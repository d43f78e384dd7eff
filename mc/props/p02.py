"""P02: maximum-random overlap of the stratiform cloud classes, for every outcome of the randomness."""
import itertools
from fractions import Fraction

import numpy as np

from .. import subcol, wide
from . import p01

BOUNDS = {
    "quick": "N=2: 3 active levels; N=3: 2 active levels with and without convective columns, N=4: 2 levels, all permutations on a third of the "
             "count grid; exact outcome distribution (weights = product of 1/n over the choices) compared under column swaps",
    "thorough": "N=2: 4 levels; N=3: 3 levels; N=4: 2 levels, all permutations; N=5,6: 2 levels, {id,reverse,rotations}, <=2 "
                "deviations (overlap only)",
}
BOUNDS = {k: v + wide.BOUND[k] for k, v in BOUNDS.items()}
RULE = "one execution = one sequence of permutations; distinct outcome = distinct (inputs, allocated sets)"
ASSUMPTIONS = [wide.ASSUME, "randomness reaches the allocator only through numpy's random module, every permutation is equally likely",
               "where a cell is completely filled by both classes the overlap with convection is not judged"]


def units(tier):
    u = []

    def add(N, L, conv, perms, bound, parts, stride=1):
        for k in range(parts):
            u.append({"N": N, "L": L, "conv": conv, "perms": perms, "bound": bound, "part": k, "parts": parts,
                      "stride": stride})
    if tier == "quick":
        add(2, 3, False, "all", None, 8)
        add(2, 2, True, "all", None, 4)
        add(3, 2, False, "all", None, 16)
        add(3, 2, True, "all", None, 24)
        add(4, 2, False, "all", None, 48, 9)
        add(5, 2, False, "cyc", 0, 8)
    else:
        add(2, 4, False, "all", None, 16)
        add(3, 3, False, "all", None, 96)
        add(3, 2, True, "all", None, 24)
        add(4, 2, False, "all", None, 96)
        add(4, 2, True, "cyc", None, 64)
        add(5, 2, False, "cyc", 2, 32)
        add(6, 2, False, "cyc", 1, 32)
    u += wide.units(tier, "overlap")
    return u


def run_unit(u, rec):
    if u.get("kind") == "wide":
        return wide.run(u, rec, u["what"])
    lv = p01.levels(u["N"], u["conv"])
    cases = list(itertools.product(lv, repeat=u["L"]))
    if u["stride"] > 1:      # keep the cases with cloud in the lower level and both classes somewhere
        cases = [c for c in cases if sum(c[0][:2]) and sum(c[1][:2])][::u["stride"]]
    for case in cases[u["part"]::u["parts"]]:
        one(u, rec, u["N"], case)


def allowed(N, n, above, conv, got):
    """Judge one level. n=(cl,ci) counts, above/got=(set cl, set ci), conv=set of columns convective at this level."""
    free = frozenset(range(N)) - conv
    up = (above[0] & free, above[1] & free)
    inter, union = up[0] & up[1], up[0] | up[1]
    big, small = (0, 1) if n[0] >= n[1] else (1, 0)
    B, S = got[big], got[small]
    if not S <= B:
        return "the smaller class is not contained in the larger one"
    for X, what in ((B, "larger"), (S, "smaller")):
        k = len(X)
        if len(X & union) != min(k, len(union)):
            return "the %s class (%d columns) uses %d of the %d columns with cloud directly above" % (
                what, k, len(X & union), len(union))
        if len(X & inter) != min(k, len(inter)):
            return "the %s class (%d columns) uses %d of the %d columns with both classes directly above" % (
                what, k, len(X & inter), len(inter))
    return None


def one(u, rec, N, case):
    from emc2.simulator.subcolumn import set_stratiform_sub_col_frac, set_convective_sub_col_frac
    L, H, conv = u["L"], u["L"] + 1, u["conv"]
    cl = [c[0] / N for c in case] + [0.]
    ci = [c[1] / N for c in case] + [0.]
    cv = [c[2] / N for c in case] + [0.]
    rad = (sum(c[0] + 2 * c[1] for c in case) % 2) == 1
    ccls = "ci" if (case[0][0] + case[-1][1]) % 2 else "cl"

    def body(stub):
        m = subcol.column_model(H, process_conv=conv)
        subcol.set_fracs(m, {"cl": [cl], "ci": [ci]})
        if conv:
            subcol.set_fracs(m, {ccls: [cv]}, which="conv")
            m.ds["subcolumn"] = ("subcolumn", np.arange(N))
            for h in ("cl", "ci"):
                set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad)
        set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, parallel=False)
        p = subcol.profs(m, "strat", ("cl", "ci"))
        q = subcol.profs(m, "conv", ("cl", "ci")) if conv else None
        return subcol.sets(p["cl"]), subcol.sets(p["ci"]), (
            subcol.sets(q["cl"] | q["ci"]) if conv else (frozenset(),) * H)
    dist = {}
    exact = u["perms"] == "all" and u["bound"] is None
    info = {"N": N, "levels(cl,ci,conv) from the surface": case, "rad": rad}
    for ctx, (a, b, c) in subcol.run_all(body, perms=u["perms"], bound=u["bound"], max_exec=200000):
        rec.trace()
        rec.step(L)
        rec.outcome((N, case, a, b))
        w = Fraction(1)
        for n, _ in ctx.points:
            w /= n
        dist[(a, b)] = dist.get((a, b), 0) + w
        for j in range(L):
            rec.state((N, case[j], a[j + 1], b[j + 1], c[j], a[j], b[j]))
            full = min(case[j][:2]) == N
            if full:
                continue
            why = allowed(N, case[j][:2], (a[j + 1], b[j + 1]), c[j], (a[j], b[j]))
            if why:
                rec.violation("overlap", "level %d: %s (cl=%s ci=%s; above cl=%s ci=%s; convective %s)" % (
                    j, why, sorted(a[j]), sorted(b[j]), sorted(a[j + 1]), sorted(b[j + 1]), sorted(c[j])),
                    info, ctx.choices)
    if exact and not conv:
        if sum(dist.values()) != 1:
            raise RuntimeError("outcome weights do not sum to one")
        for i in range(N - 1):
            sw = {i: i + 1, i + 1: i}
            for o, w in dist.items():
                o2 = tuple(tuple(frozenset(sw.get(x, x) for x in s) for s in part) for part in o)
                rec.note("symmetry_checks")
                if dist.get(o2, 0) != w:
                    rec.violation("exchange", "subcolumns %d and %d are not interchangeable: outcome %s has probability %s, "
                                  "with the two columns swapped %s" % (
                                      i, i + 1, [[sorted(s) for s in p] for p in o], w, dist.get(o2, 0)), info)
                    return
    rec.sample({"case": info, "outcomes": len(dist)})
