"""P04: precipitation fraction is conserved and prefers subcolumns with precipitation above, then cloudy ones."""
import itertools
from fractions import Fraction

import numpy as np

from .. import subcol, synth, wide

BOUNDS = {
    "quick": "N=2: 3 active levels, N=3: 2 active levels, all (pl,pi) counts, every cloud mask on the lower level, all permutations; N=4,5 "
             "with {id,reverse,rotations}; three classes N=2; conv and strat; exact outcome symmetry for equal cloud masks",
    "thorough": "N=3: cloud masks on both levels, all permutations; N=4: all counts, 2 levels, all permutations; three classes N=3",
}
BOUNDS = {k: v + wide.BOUND[k] for k, v in BOUNDS.items()}
RULE = "one execution = one sequence of permutations for one input column; distinct outcome = distinct (inputs, allocated sets)"
ASSUMPTIONS = [wide.ASSUME, "randomness reaches the allocator only through numpy's random module",
               "the top model level is never allocated (existing behaviour) and is not judged"]


def units(tier):
    u = []

    def add(N, L, nc, masks, perms, bound, parts, stride=1):
        for k in range(parts):
            u.append({"kind": "alloc", "N": N, "L": L, "nc": nc, "masks": masks, "perms": perms, "bound": bound,
                      "part": k, "parts": parts, "stride": stride})
    if tier == "quick":
        add(2, 3, 2, "low", "all", None, 8, 3)
        add(2, 2, 2, "all", "all", None, 4)
        add(2, 2, 3, "all", "all", None, 8)
        add(3, 2, 2, "low", "all", None, 32, 2)
        add(4, 2, 2, "cls", "cyc", 1, 16, 5)
        add(6, 2, 2, "cls", "cyc", 0, 8, 7)
    else:
        add(2, 3, 2, "all", "all", None, 16)
        add(2, 3, 3, "low", "all", None, 32)
        add(3, 2, 2, "all", "all", None, 96)
        add(3, 2, 3, "low", "all", None, 96, 2)
        add(4, 2, 2, "low", "all", None, 128, 3)
        add(6, 2, 2, "cls", "cyc", 1, 32)
    for N in ((3, 5) if tier == "quick" else (2, 3, 5, 8)):
        u.append({"kind": "round", "N": N})
    u += wide.units(tier, "precip")
    return u


def run_unit(u, rec):
    if u.get("kind") == "wide":
        return wide.run(u, rec, u["what"])
    globals()["u_" + u["kind"]](u, rec)


CLASSES = {2: ("pl", "pi"), 3: ("pl", "pi", "sn")}


def u_alloc(u, rec):
    N, L, nc = u["N"], u["L"], u["nc"]
    lv = list(itertools.product(range(N + 1), repeat=nc))
    if u["masks"] == "cls":
        low = [tuple(1 if i < k else 0 for i in range(N)) for k in range(N + 1)]
    else:
        low = list(itertools.product((0, 1), repeat=N))
    up = low if u["masks"] == "all" else [(1,) + (0,) * (N - 1)]
    cases = itertools.product(itertools.product(lv, repeat=L), itertools.product(low, *[up] * (L - 1)))
    cases = [c for c in cases if sum(c[0][0])][::u["stride"]]
    for case in cases[u["part"]::u["parts"]]:
        one(u, rec, N, L, nc, case)


def level_model(H, nc, T=1):
    hyd = synth.HYD + (("sn",) if nc == 3 else ())

    def build():
        q = {h: 1e-4 for h in hyd}
        return synth.make_model(T, H, q_strat=q, q_conv=q, hyd=hyd)
    return subcol.fresh(("p04", H, nc, T), build)


def one(u, rec, N, L, nc, case):
    from emc2.simulator.subcolumn import set_precip_sub_col_frac
    counts, masks = case
    H = L + 1
    cl = CLASSES[nc]
    h = sum(map(sum, counts)) + sum(map(sum, masks))
    is_conv, rad = bool(h % 2), bool((h // 2) % 2)
    order = cl if (h // 4) % 2 else cl[::-1]
    mask = np.zeros((N, 1, H), dtype=bool)
    for j in range(L):
        mask[:, 0, j] = masks[j]
    kind, other = ("conv", "strat") if is_conv else ("strat", "conv")

    base = level_model(H, nc)
    for i, c in enumerate(cl):
        f = [[lev[i] / N for lev in counts] + [0.]]
        subcol.set_fracs(base, {c: f}, kind, rad=rad, micro=not rad)
        subcol.set_fracs(base, {c: .43}, kind, rad=not rad, micro=rad)
        subcol.set_fracs(base, {c: .77}, other)
    base.ds["subcolumn"] = ("subcolumn", np.arange(N))
    dims = ("subcolumn", "time", "height")
    a, b = mask.copy(), mask.copy()
    a[::2] = False                      # the cloud sits in the liquid mask, in the ice mask, or in both
    b[1:2] = False
    base.ds[kind + "_frac_subcolumns_cl"] = (dims, a)
    base.ds[kind + "_frac_subcolumns_ci"] = (dims, b)
    base.ds[other + "_frac_subcolumns_cl"] = (dims, ~mask)
    base.ds[other + "_frac_subcolumns_ci"] = (dims, ~mask)

    def body(stub):
        m = subcol.clone(base)
        set_precip_sub_col_frac(m, is_conv=is_conv, use_rad_logic=rad, parallel=False, precip_types=list(order))
        p = subcol.profs(m, kind, cl)
        return tuple(subcol.sets(p[c]) for c in cl)
    info = {"N": N, "counts from the surface": counts, "cloud": masks, "is_conv": is_conv, "rad": rad, "order": order}
    dist = {}
    cloudy = [frozenset(np.flatnonzero(x).tolist()) for x in masks]
    for ctx, out in subcol.run_all(body, perms=u["perms"], bound=u["bound"], max_exec=300000):
        rec.trace()
        rec.step(L)
        rec.outcome((N, case, out))
        w = Fraction(1)
        for n, _ in ctx.points:
            w /= n
        dist[out] = dist.get(out, 0) + w
        for j in range(L):
            above = frozenset().union(*[o[j + 1] for o in out])
            rec.state((N, counts[j], cloudy[j], above, tuple(o[j] for o in out)))
            pref = above | cloudy[j]
            for i, c in enumerate(cl):
                X, k = out[i][j], counts[j][i]
                say = "level %d: %s in %s (above: %s, cloudy: %s, counts %s of %d)" % (
                    j, c, sorted(X), sorted(above), sorted(cloudy[j]), counts[j], N)
                rec.check(len(X) == k, "count:%s" % c, "%d subcolumns instead of %d; %s" % (len(X), k, say), info, ctx.choices)
                rec.check(len(X & above) == min(len(X), len(above)), "overlap:%s" % c,
                          "precipitation above is not continued downwards first; " + say, info, ctx.choices)
                rec.check(len(X & pref) == min(len(X), len(pref)), "cloudy:%s" % c,
                          "clear subcolumns are used although cloudy ones are free; " + say, info, ctx.choices)
                for i2 in range(i):
                    Y = out[i2][j]
                    rec.check(X <= Y or Y <= X, "nest", "the precipitation classes do not overlap maximally: %s, %s in %s" % (
                        say, cl[i2], sorted(Y)), info, ctx.choices)
    if u["perms"] == "all" and u["bound"] is None:
        for i in range(N - 1):
            if any(x[i] != x[i + 1] for x in masks):
                continue
            sw = {i: i + 1, i + 1: i}
            for o, w in dist.items():
                o2 = tuple(tuple(frozenset(sw.get(x, x) for x in s) for s in part) for part in o)
                rec.note("symmetry_checks")
                if dist.get(o2, 0) != w:
                    rec.violation("exchange", "subcolumns %d and %d with the same cloud are not interchangeable: %s has probability %s, "
                                  "swapped %s" % (i, i + 1, [[sorted(s) for s in p] for p in o], w, dist.get(o2, 0)), info)
                    return
    rec.sample({"case": info, "outcomes": len(dist)})


def u_round(u, rec):
    from emc2.simulator.subcolumn import set_precip_sub_col_frac
    N = u["N"]
    fr = [k / (8. * N) for k in range(8 * N + 1) if k % 8 != 4]
    T = len(fr)
    for rad in (True, False):
        for is_conv in (True, False):
            for q in (0., 9e-19, 1.1e-18, 1e-5):
                kind = "conv" if is_conv else "strat"
                m = level_model(2, 2, T)
                subcol.set_fracs(m, {"pl": np.array([[f, 0.] for f in fr]), "pi": np.array([[f, 0.] for f in fr[::-1]])}, kind)
                for h in ("pl", "pi"):
                    subcol.set_field(m, "q%s_%s" % (kind[0], h), q)
                m.ds["subcolumn"] = ("subcolumn", np.arange(N))
                for h in ("cl", "ci"):
                    m.ds[kind + "_frac_subcolumns_" + h] = (("subcolumn", "time", "height"), np.zeros((N, T, 2), bool))
                set_precip_sub_col_frac(m, is_conv=is_conv, use_rad_logic=rad, parallel=False)
                p = subcol.profs(m, kind, ("pl", "pi"))
                for h, f in (("pl", fr), ("pi", fr[::-1])):
                    got = p[h][:, :, 0].sum(axis=0)
                    for t in range(T):
                        want = int(np.floor(f[t] * N + .5)) if (q > 1e-18 or not rad) else 0
                        rec.trace()
                        rec.step()
                        rec.state((N, rad, is_conv, q, h, t))
                        rec.outcome((N, h, want))
                        rec.check(got[t] == want, "round:%s" % h, "%s %s fraction %.5f, q=%g, %s logic: %d of %d subcolumns, expected %d" % (
                            kind, h, f[t], q, "radiation" if rad else "microphysics", got[t], N, want),
                            {"N": N, "frac": f[t], "q": q, "rad": rad, "conv": is_conv})
