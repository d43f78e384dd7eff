"""P05: mixing ratio and number are distributed into exactly the occupied subcolumns, conserving the cell total, for every
possible sequence of random draws, and the distribution always terminates."""
import itertools

import numpy as np

from .. import subcol, wide
from ..run import Watchdog, Hang

BOUNDS = {
    "quick": "uniform: N=2..4, every mask, fraction offsets, masses around the threshold, N={0,5,100}, both logics, strat+conv; gamma: N=2,3 all masks, "
             "N=4 leading masks, all permutations x draws in {0.2,1,3.1} times the mean, relative variance from {argument, field, default}",
    "thorough": "uniform N up to 5; gamma: N=2,3 two levels jointly, N=4 all permutations x draws {0.2,1,3.1}, N=5 permutation alphabet "
                "{id,reverse,rotations} with 3 deviations",
}
BOUNDS = {k: v + wide.BOUND[k] for k, v in BOUNDS.items()}
RULE = "one execution = one call of the distributor with one sequence of random answers; distinct outcome = distinct q/N profile"
ASSUMPTIONS = [wide.ASSUME, "gamma draws are abstracted to three multiples of their mean",
               "non-termination is reported after 5 s without an answer (a normal call takes milliseconds)"]
TH = 1e-18


def units(tier):
    u = []
    for N in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for conv in (True, False):
            for h in ("cl", "pi"):
                u.append({"kind": "uniform", "N": N, "conv": conv, "hyd": h})
    par = 12 if tier == "quick" else 24
    for N in (2, 3):
        u += [{"kind": "gamma", "N": N, "part": k, "parts": par, "perms": "all", "bound": None, "two": tier != "quick" and N == 2}
              for k in range(par)]
    if tier == "quick":
        u += [{"kind": "gamma", "N": 4, "part": k, "parts": 12, "perms": "all", "bound": 2, "two": False} for k in range(12)]
    else:
        u += [{"kind": "gamma", "N": 4, "part": k, "parts": 48, "perms": "all", "bound": None, "two": False} for k in range(48)]
        u += [{"kind": "gamma", "N": 5, "part": k, "parts": 48, "perms": "cyc", "bound": 3, "two": False} for k in range(48)]
    u.append({"kind": "single"})
    u += wide.units(tier, "mass")
    return u


def run_unit(u, rec):
    if u.get("kind") == "wide":
        return wide.run(u, rec, u["what"])
    globals()["u_" + u["kind"]](u, rec)


def u_uniform(u, rec):
    from emc2.simulator.subcolumn import set_q_n
    N, conv, hyd = u["N"], u["conv"], u["hyd"]
    kind, pre = ("conv", "qc_") if conv else ("strat", "qs_")
    masks = list(itertools.product((False, True), repeat=N))
    offs = (-.4 / N, 0., .4 / N)
    rows = [(mk, o) for mk in masks for o in offs]
    qs = (0., 9.9e-19, 1.1e-18, 3e-5)
    ns = (0., 5., 100.)
    levels = list(itertools.product(qs, ns))
    T, H = len(rows), len(levels)
    mask = np.zeros((N, T, H), dtype=bool)
    frac = np.zeros((T, H))
    for t, (mk, o) in enumerate(rows):
        mask[:, t, :] = np.array(mk)[:, None]
        frac[t] = min(1., max(0., sum(mk) / N + (o if any(mk) else abs(o))))
    Q = np.tile([a for a, _ in levels], (T, 1))
    NN = np.tile([b for _, b in levels], (T, 1))
    for rad, flag in itertools.product((True, False), (True, False)):
        if flag and not rad and not conv:
            continue                        # that is the sampled distribution, explored below
        for as_float in (False, True):
            m = subcol.column_model(H, T=T)
            subcol.set_fracs(m, {hyd: frac}, kind, rad=rad, micro=not rad)
            subcol.set_fracs(m, {hyd: .91}, kind, rad=not rad, micro=rad)
            subcol.set_fracs(m, {hyd: .77}, "strat" if conv else "conv")
            subcol.set_field(m, pre + hyd, Q)
            subcol.set_field(m, ("qs_" if conv else "qc_") + hyd, 7e-3)
            subcol.set_field(m, "N_" + hyd, NN)
            m.ds["subcolumn"] = ("subcolumn", np.arange(N))
            dims = ("subcolumn", "time", "height")
            m.ds[kind + "_frac_subcolumns_" + hyd] = (dims, mask.astype(float) if as_float else mask)
            m.ds[("strat" if conv else "conv") + "_frac_subcolumns_" + hyd] = (dims, ~mask)
            with Watchdog(20):
                set_q_n(m, hyd, is_conv=conv, qc_flag=flag, use_rad_logic=rad, parallel=False)
            got = {"q": m.ds["%s_q_subcolumns_%s" % (kind, hyd)].values}
            want = {"q": np.where(mask & (Q > TH), Q / np.where(frac > 0, frac, np.nan), 0.)}
            if not conv:
                got["N"] = m.ds["strat_n_subcolumns_" + hyd].values
                # the fraction of the radiation logic is void where the mass is truncated: number is then undefined, not judged
                want["N"] = np.where(mask, NN / np.where(frac > 0, frac, np.nan), 0.)
            judge = np.ones_like(mask) if not rad else np.broadcast_to(Q > TH, mask.shape)
            for k in got:
                jj = judge if k == "N" else np.ones_like(mask)
                bad = np.argwhere(~np.isclose(got[k], want[k], rtol=1e-9, atol=0) & jj)
                rec.trace(mask.size // N)
                rec.step(mask.size // N)
                rec.state((N, conv, hyd, rad, flag, k))
                for t in range(T):
                    rec.outcome((N, conv, k, tuple(np.round(got[k][:, t, -1], 12))))
                rec.check(len(bad) == 0, "uniform:%s" % k,
                          lambda: "%s in subcolumn %d is %g, expected %g (mask %s, fraction %.4f, cell q=%g N=%g)" % (
                              k, bad[0][0], got[k][tuple(bad[0])], want[k][tuple(bad[0])], mask[:, bad[0][1], 0].astype(int),
                              frac[bad[0][1], 0], Q[bad[0][1], bad[0][2]], NN[bad[0][1], bad[0][2]]),
                          {"N": N, "conv": conv, "hyd": hyd, "rad": rad, "qc_flag": flag})
    rec.sample({"N": N, "conv": conv, "hyd": hyd, "cells": T * H})


def u_gamma(u, rec):
    from emc2.simulator.subcolumn import set_q_n
    N = u["N"]
    masks = list(itertools.product((False, True), repeat=N))
    if N >= 4:
        masks = [m for m in masks if sum(m) >= 2][::3] + [(True,) * N]
    src = (("arg", 2.), ("default", None), ("field", .5))
    qs = (0., 9.9e-19, 2e-5)
    cases = []
    for mk in masks:
        for s in src:
            for q in qs:
                for other in ((False,) * N, (True,) * 2 + (False,) * (N - 2)) if u["two"] else ((False,) * N,):
                    cases.append((mk, other, s, q))
    gam = (1., .2, 3.1)
    for mk, other, (how, val), q in cases[u["part"]::u["parts"]]:
        H = 2
        mask = np.zeros((N, 1, H), dtype=bool)
        mask[:, 0, 0], mask[:, 0, 1] = mk, other
        q2 = 5e-5
        frac = mask.mean(axis=0)
        frac[0, 0] = frac[0, 0] * .9            # a fraction that is not a multiple of 1/N
        base = subcol.column_model(H)
        subcol.set_fracs(base, {"cl": frac})
        subcol.set_fracs(base, {"cl": .91}, rad=True, micro=False)
        subcol.set_field(base, "qs_cl", [[q, q2]])
        subcol.set_field(base, "N_cl", [[30., 60.]])
        base.ds["subcolumn"] = ("subcolumn", np.arange(N))
        base.ds["strat_frac_subcolumns_cl"] = (("subcolumn", "time", "height"), mask)
        if how == "field":
            base.ds["relvar"] = (("time", "height"), np.full((1, H), 1. / val))
            base.strat_relvar_name = "relvar"
        shape = {"arg": val, "default": 1., "field": val}[how]
        info = {"N": N, "mask": mk, "upper mask": other, "q": q, "relative variance": (how, val)}

        def body(stub):
            m = subcol.clone(base)
            with Watchdog(5):
                set_q_n(m, "cl", is_conv=False, qc_flag=True, inv_rel_var=val if how == "arg" else None,
                        use_rad_logic=False, parallel=False)
            return m.ds["strat_q_subcolumns_cl"].values, m.ds["strat_n_subcolumns_cl"].values, list(stub.gamma_calls)
        try:
            for ctx, (qq, nn, calls) in subcol.run_all(body, perms=u["perms"], gammas=gam, bound=u["bound"], max_exec=400000):
                judge(rec, info, ctx, qq, nn, calls, mask, frac, (q, q2), (30., 60.), shape, gam)
        except Hang as e:
            rec.violation("hang", "the distribution of q over %d occupied subcolumns does not terminate: %s" % (sum(mk), e), info)
    rec.sample({"N": N, "cases": len(cases)})


def judge(rec, info, ctx, qq, nn, calls, mask, frac, q, n, shape, gam):
    rec.trace()
    rec.step(2)
    rec.outcome((info["N"], info["mask"], info["upper mask"], tuple(np.round(qq.ravel() / 1e-5, 8))))
    draws = [gam[c] for c, (_, tag) in zip(ctx.choices, ctx.points) if tag == "gamma"]
    rec.state((info["N"], info["mask"], info["upper mask"], info["q"], tuple(draws)))
    for j in range(2):
        occ = mask[:, 0, j]
        k = int(occ.sum())
        mean = q[j] / frac[0, j] if (k and q[j] > TH) else 0.
        col = qq[:, 0, j]
        ch = ctx.choices
        rec.check(np.all(np.isfinite(col)) and np.all(col >= -1e-12 * max(mean, 1e-30)), "gamma:negative",
                  "level %d: subcolumn mixing ratios %s are not all non-negative" % (j, col.tolist()), info, ch)
        rec.check(np.all(col[~occ] == 0), "gamma:outside", "level %d: condensate outside the occupied subcolumns: %s, mask %s" % (
            j, col.tolist(), occ.astype(int).tolist()), info, ch)
        rec.check(abs(col.sum() - k * mean) <= 1e-9 * k * mean, "gamma:mean",
                  "level %d: subcolumn total %g, the cell in-cloud mean asks for %g (draws %s)" % (j, col.sum(), k * mean, draws), info, ch)
        want_n = np.where(occ, n[j] / frac[0, j] if k else 0., 0.)
        rec.check(np.allclose(nn[:, 0, j], want_n, rtol=1e-9, atol=0), "gamma:N",
                  "level %d: number %s, expected %s" % (j, nn[:, 0, j].tolist(), want_n.tolist()), info, ch)
    # the draws describe a gamma distribution of the requested relative variance ...
    for a, b in calls:
        rec.check(abs(a - shape) < 1e-9 * shape, "gamma:shape", "gamma draws use shape %g, the relative variance asks for %g" % (a, shape), info,
                  ctx.choices)
    # ... and are used as they are as long as they fit into the cell total (one occupied level only, so that draws are attributable)
    k = sum(info["mask"])
    if not any(info["upper mask"]) and k >= 2 and q[0] > TH:
        mean = q[0] / frac[0, 0]
        rec.check(len(draws) >= k - 1, "gamma:drawn", "%d occupied subcolumns but %d random values" % (k, len(draws)), info, ctx.choices)
        got = sorted(np.round(qq[mask[:, 0, 0], 0, 0] / mean, 7))
        if len(draws) == k and sum(draws[:-1]) < k - 1e-9:
            rest = k - sum(draws[:-1])
            want = sorted(np.round(draws[:-1] + [rest], 7))
            rec.note("draws_attributed")
            rec.check(np.allclose(got, want, atol=2e-7), "gamma:draws",
                      "in-cloud values (in units of the mean) %s do not carry the draws %s with the remainder %g" % (
                          got, draws[:-1], rest), info, ctx.choices)


def u_single(u, rec):
    """One subcolumn: the occupied cell carries the in-cloud mean."""
    from emc2.simulator.subcolumn import set_q_n
    fr = (.1, .5, 1.)
    qs = (0., 9.9e-19, 1.1e-18, 3e-5)
    grid = np.array(list(itertools.product(fr, qs)))
    T = len(grid)
    for rad, conv, hyd in itertools.product((True, False), (True, False), ("cl", "ci", "pl", "pi")):
        kind, pre = ("conv", "qc_") if conv else ("strat", "qs_")
        m = subcol.column_model(2, T=T)
        subcol.set_fracs(m, {hyd: grid[:, :1]}, kind, rad=rad, micro=not rad)
        subcol.set_field(m, pre + hyd, grid[:, 1:])
        subcol.set_field(m, "N_" + hyd, 40.)
        m.ds["subcolumn"] = ("subcolumn", np.arange(1))
        m.ds[kind + "_frac_subcolumns_" + hyd] = (("subcolumn", "time", "height"), np.tile(grid[:, 1:] > TH, (1, 1, 2)).astype(float))
        with Watchdog(10):
            set_q_n(m, hyd, is_conv=conv, qc_flag=True, use_rad_logic=rad, parallel=False)
        got = m.ds["%s_q_subcolumns_%s" % (kind, hyd)].values[0, :, 0]
        want = np.where(grid[:, 1] > TH, grid[:, 1] / grid[:, 0], 0)
        rec.trace(T)
        rec.step(T)
        rec.state((rad, conv, hyd))
        rec.outcome((kind, hyd, tuple(got)))
        rec.check(np.allclose(got, want, rtol=1e-9, atol=0), "single:q", "single subcolumn q %s, expected %s" % (got.tolist(), want.tolist()),
                  {"rad": rad, "conv": conv, "hyd": hyd})
        if not conv:
            gn = m.ds["strat_n_subcolumns_" + hyd].values[0, :, 0]
            k = grid[:, 1] > TH
            rec.check(np.allclose(gn[k], 40. / grid[k, 0], rtol=1e-9), "single:N", "single subcolumn N %s" % gn.tolist(),
                      {"rad": rad, "hyd": hyd})
