"""Realistic sizes: hundreds of subcolumns, thousands of time columns or a hundred levels, judged cell by cell.

The space is enumerated through the levels: every pair (upper level, lower level) of a lattice of counts is one time column, so one call of the
generator covers all of them; the random module answers with one fixed family of permutations per call.
"""
import itertools

import numpy as np

from . import rng, subcol, synth

SIZES = {"quick": (10, 50, 127, 200, 256, 300), "thorough": (10, 25, 50, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000)}
FAMILIES = {"quick": (0, 1, 2, 3), "thorough": (0, 1, 2, 3)}
BOUND = {k: "; wide: N in %s, pairs of levels of a count lattice as up to 2600 time columns, and columns of %s levels, %d families of permutations" % (
    ", ".join(map(str, SIZES[k])), {"quick": "60 and 110", "thorough": "60, 110, 300 and 1000"}[k], len(FAMILIES[k])) for k in SIZES}
ASSUME = "at the larger sizes the random module answers with a fixed family of permutations (identity, reversal, multiplicative, rotations)"


class Perms(rng.RandomStub):
    """Permutations from a fixed family; gamma draws cycle through five multiples of their mean."""

    def __init__(self, family):
        self.family, self.calls, self.gamma_calls = family, 0, []

    def _perm(self, n):
        self.calls += 1
        n = int(n)
        p = np.arange(n)
        if n < 2 or self.family == 0:
            return p
        if self.family == 1:
            return p[::-1].copy()
        if self.family == 2:
            a = next(a for a in range(max(2, int(n * .618)), 2 * n + 3) if np.gcd(a, n) == 1)
            return (p * a + self.calls) % n
        return np.roll(p, self.calls * 7 % n)

    def gamma(self, shape, scale=1.0, size=None):
        self.calls += 1
        mean = np.asarray(shape, dtype=float) * np.asarray(scale, dtype=float)
        out = np.ones(size if size is not None else np.shape(mean)) * mean
        f = np.array([.3, 1.9, .05, 1.2, .7])
        return out * f[np.arange(out.size) % 5].reshape(out.shape) if out.ndim else float(out)

    def random(self, size=None):
        self.calls += 1
        if size is None:
            return ((self.calls * 61) % 97 + .5) / 97.
        n = int(np.prod(size))
        return ((self._perm(n) + .5) / max(n, 1)).reshape(size)

    def choice(self, a, size=None, replace=True, p=None, **k):
        arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if size is None:
            self.calls += 1
            return arr[(self.calls * 61) % len(arr)]
        n = int(np.prod(size))
        if replace:
            self.calls += n
            return arr[(np.arange(n) * 61 + self.calls) % len(arr)].reshape(size)
        return arr[self._perm(len(arr))[:n]].reshape(size)


def counts(N):
    return sorted({0, 1, N // 3, N // 2 + 1, N - 1, N})


def lattice(N, conv):
    """(cl, ci, conv cl, conv ci) counts of a level that fit together."""
    k = counts(N)
    c = [(0, 0)] + ([(1, 0), (0, N // 3), (N // 3, N // 3 + 1), (N // 2, 2)] if conv else [])
    return [(a, b) + x for a, b in itertools.product(k, k) for x in c if max(a, b) + max(x) <= N]


def columns(N, conv, tall):
    """Counts (T, H, 4), the top level empty. Flat: one time column per pair of levels; tall: a walk through all pairs in columns of `tall` levels."""
    lv = lattice(N, conv)
    n = len(lv)
    if not tall:
        step = max(1, n * n // 2600)
        idx = np.arange(0, n * n, step if np.gcd(step, n) == 1 else step + 1)
        a = np.array(lv)
        out = np.zeros((len(idx), 3, 4), dtype=int)
        out[:, 0], out[:, 1] = a[idx % n], a[idx // n]
        return out
    L = tall - 1
    T = 24
    seq = [(i * (7 + s) + s * s) % n for s in range(T) for i in range(L)]
    out = np.zeros((T, tall, 4), dtype=int)
    out[:, :-1] = np.array(lv)[seq].reshape(T, L, 4)
    return out


def precip(N, C):
    """Counts of pl and pi for every cell."""
    k = np.array(counts(N))
    T, H = C.shape[:2]
    i = np.arange(T)[:, None] * 5 + np.arange(H) * 11 + C[:, :, 0] + 3 * C[:, :, 1]
    out = np.stack([k[i % len(k)], k[(i // 2 + C[:, :, 2]) % len(k)]], axis=-1)
    out[:, -1] = 0
    return out


def build(N, conv, tall, rad):
    C = columns(N, conv, tall)
    P = precip(N, C)
    T, H = C.shape[:2]
    m = subcol.column_model(H, T=T, process_conv=conv)
    for hyds, A, kind in ((("cl", "ci"), C[:, :, :2], "strat"), (("cl", "ci"), C[:, :, 2:], "conv"), (("pl", "pi"), P, "strat"), (("pl", "pi"), P[::-1], "conv")):
        for i, h in enumerate(hyds):
            subcol.set_fracs(m, {h: A[:, :, i] / N}, kind, rad=rad, micro=not rad)
            subcol.set_fracs(m, {h: .43}, kind, rad=not rad, micro=rad)
    m.ds["subcolumn"] = ("subcolumn", np.arange(N))
    return m, C, P


def units(tier, what):
    u = []
    for N in SIZES[tier]:
        u.append({"kind": "wide", "tier": tier, "what": what, "N": N, "conv": N % 2 == 0 or what == "conv", "tall": 0})
    for N, H in ((20, 60), (100, 110)) if tier == "quick" else ((20, 60), (100, 110), (200, 300), (50, 1000)):
        u.append({"kind": "wide", "tier": tier, "what": what, "N": N, "conv": True, "tall": H})
    return u


def run(u, rec, which):
    """Run the generator and hand the masks to the judge of one property."""
    import emc2.simulator as s
    N, conv = u["N"], u["conv"]
    for fam in FAMILIES[u["tier"]]:
        rad = (fam + N) % 2 == 0
        m, C, P = build(N, conv, u["tall"], rad)
        with rng.controlled(Perms(fam)):
            if conv:
                for h in ("cl", "ci"):
                    s.subcolumn.set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad)
            s.subcolumn.set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, parallel=False)
            if which in ("precip", "mass"):
                for c in (False, True)[:1 + conv]:
                    s.subcolumn.set_precip_sub_col_frac(m, is_conv=c, use_rad_logic=rad, parallel=False, precip_types=["pl", "pi"])
        S = subcol.profs(m, "strat", ("cl", "ci"))
        Q = subcol.profs(m, "conv", ("cl", "ci")) if conv else {h: np.zeros_like(S[h]) for h in ("cl", "ci")}
        T, H = C.shape[:2]
        rec.trace(T)
        rec.step(T * (H - 1))
        for c in np.unique(C.reshape(-1, 4), axis=0):
            rec.state((N, u["tall"], fam, tuple(c.tolist())))
        rec.outcome((N, u["tall"], fam, S["cl"].tobytes()))
        info = {"unit": u, "family of permutations": fam, "rad": rad}
        globals()["judge_" + which](rec, info, m, N, C, P, S, Q, fam, rad)
    rec.sample({"N": N, "columns": T, "levels": H, "judge": which})


def report(rec, ok, kind, info, C, text):
    """ok: (T, H) booleans."""
    bad = np.argwhere(~ok)
    t, j = bad[0] if len(bad) else (0, 0)
    rec.check(len(bad) == 0, "wide:" + kind, lambda: "%s in %d cells; first: time column %d, level %d, counts (cl, ci, conv cl, conv ci) %s%s" % (
        text(t, j), len(bad), t, j, C[t, j].tolist(), " below %s" % C[t, j + 1].tolist() if j + 1 < C.shape[1] else ""), dict(info, counts=C[t].tolist()[:6]))


def judge_count(rec, info, m, N, C, P, S, Q, fam, rad):
    for i, h in enumerate(("cl", "ci")):
        got = S[h].sum(axis=0)
        report(rec, got == C[:, :, i], "count:" + h, info, C, lambda t, j: "%d of %d subcolumns carry stratiform %s, asked for %d" % (got[t, j], N, h, C[t, j, i]))


def pick(k, X, U):
    """X (N,T) takes as many as it can from U."""
    return (X & U).sum(axis=0) == np.minimum(k, U.sum(axis=0))


def judge_overlap(rec, info, m, N, C, P, S, Q, fam, rad):
    H = C.shape[1]
    ok = np.ones(C.shape[:2], dtype=bool)
    for j in range(H - 1):
        free = ~(Q["cl"][:, :, j] | Q["ci"][:, :, j])
        up = [S[h][:, :, j + 1] & free for h in ("cl", "ci")]
        inter, union = up[0] & up[1], up[0] | up[1]
        big = C[:, j, 0] >= C[:, j, 1]
        B = np.where(big, S["cl"][:, :, j], S["ci"][:, :, j])
        L = np.where(big, S["ci"][:, :, j], S["cl"][:, :, j])
        good = ~(L & ~B).any(axis=0)
        for X in (B, L):
            k = X.sum(axis=0)
            good &= pick(k, X, union) & pick(k, X, inter)
        ok[:, j] = good | (C[:, j, :2].min(axis=1) == N)
    report(rec, ok, "overlap", info, C, lambda t, j: "the stratiform classes do not overlap the cloud above maximally")


def judge_conv(rec, info, m, N, C, P, S, Q, fam, rad):
    lead = np.arange(N)[:, None, None]
    for i, h in enumerate(("cl", "ci")):
        report(rec, (Q[h] == (lead < C[:, :, 2 + i])).all(axis=0), "conv:" + h, info, C, lambda t, j: "convective %s does not fill the first subcolumns" % h)
    both = (Q["cl"] | Q["ci"]) & (S["cl"] | S["ci"])
    report(rec, ~both.any(axis=0), "exclusive", info, C, lambda t, j: "%d subcolumns carry both convective and stratiform cloud" % both[:, t, j].sum())


def judge_precip(rec, info, m, N, C, P, S, Q, fam, rad):
    H = C.shape[1]
    for kind, M, A in (("strat", S, P), ("conv", Q, P[::-1]))[:1 + info["unit"]["conv"]]:
        X = subcol.profs(m, kind, ("pl", "pi"))
        cloud = M["cl"] | M["ci"]
        for i, h in enumerate(("pl", "pi")):
            got = X[h].sum(axis=0)
            report(rec, got == A[:, :, i], "precip:" + h, info, A, lambda t, j: "%d of %d subcolumns carry %s %s, asked for %d" % (got[t, j], N, kind, h, A[t, j, i]))
        ok = {k: np.ones(C.shape[:2], dtype=bool) for k in ("above", "cloudy", "nest")}
        for j in range(H - 1):
            above = X["pl"][:, :, j + 1] | X["pi"][:, :, j + 1]
            for h in ("pl", "pi"):
                x = X[h][:, :, j]
                k = x.sum(axis=0)
                ok["above"][:, j] &= pick(k, x, above)
                ok["cloudy"][:, j] &= pick(k, x, above | cloud[:, :, j])
            a, b = X["pl"][:, :, j], X["pi"][:, :, j]
            ok["nest"][:, j] = ~(a & ~b).any(axis=0) | ~(b & ~a).any(axis=0)
        for k, what in (("above", "precipitation above is not continued first"), ("cloudy", "clear subcolumns are used although cloudy ones are free"),
                        ("nest", "the precipitation classes do not overlap maximally")):
            report(rec, ok[k], "precip:" + k, info, A, lambda t, j: "%s: %s" % (kind, what))


def judge_mass(rec, info, m, N, C, P, S, Q, fam, rad):
    import emc2.simulator as s
    from .run import Watchdog
    T, H = C.shape[:2]
    for kind, sl in (("strat", slice(0, 2)), ("conv", slice(2, 4)))[:1 + info["unit"]["conv"]]:
        A = P if kind == "strat" else P[::-1]
        for h, n in (("cl", C[:, :, sl][:, :, 0]), ("ci", C[:, :, sl][:, :, 1]), ("pl", A[:, :, 0]), ("pi", A[:, :, 1])):
            q = 1e-5 * (1 + .01 * np.arange(H)) * (1 + np.arange(T)[:, None] % 7)
            subcol.set_field(m, ("qs_" if kind == "strat" else "qc_") + h, q)
            with rng.controlled(Perms(fam)), Watchdog(200):
                s.subcolumn.set_q_n(m, h, is_conv=kind == "conv", qc_flag=h == "cl" and kind == "strat", use_rad_logic=rad, parallel=False)
            got = m.ds["%s_q_subcolumns_%s" % (kind, h)].values
            occ = subcol.profs(m, kind, (h,))[h]
            tot = got.sum(axis=0)
            want = np.where(n > 0, q * N, 0.)
            ok = np.isclose(tot, want, rtol=1e-9, atol=1e-20) & (got >= -1e-12 * q * N).all(axis=0) & ((got > 0) == occ).all(axis=0)
            report(rec, ok, "mass:%s:%s" % (kind, h), info, C, lambda t, j: "subcolumn total of %s %s is %g, the cell asks for %g (or is not in exactly the occupied subcolumns)" % (
                kind, h, tot[t, j], want[t, j]))
            if kind == "strat":
                num = m.ds["strat_n_subcolumns_" + h].values
                w = np.where(n > 0, 50. * N, 0.)
                report(rec, np.isclose(num.sum(axis=0), w, rtol=1e-9) & ((num > 0) == occ).all(axis=0), "number:" + h, info, C,
                       lambda t, j: "subcolumn total of the number of %s is %g, expected %g" % (h, num[:, t, j].sum(), w[t, j]))
