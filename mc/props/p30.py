"""P30: the public stages form a protocol: whatever order they are called in, a stage that lacks what it needs refuses and leaves the model as it was, and every permitted order gives the same model."""
import numpy as np

from .. import chain
from ..scene import describe, diff_fields
from . import p07, p08

BOUNDS = {
    "quick": "every reachable set of completed stages (breadth first from the bare model, generator stages split into cloud and precipitation, convective and stratiform) x every stage called "
             "next x {radar, lidar} x {radiation, microphysics, empirical} logic x convection on/off x 3 (radiation: also 1) subcolumns; radar and lidar stages and phase ratios interleaved on one model; "
             "16 kinds of misuse in each of those states",
    "thorough": "as quick with the mixing ratio stages split by class, microphysics fractions with empirical signals, and radar and lidar interleaved from the bare model",
}
RULE = "state = set of completed stages with the contents of the model's dataset; transition = one public stage (or misuse) called in that state on the real code; two orders reaching the " \
       "same set must agree on every variable"
ASSUMPTIONS = ["random answers are fixed functions of the request", "every stage is called with the same arguments in all orders"]
SEQ = ["mixed", "conv", "warm"]
WORK = ("mu", "lambda", "N_0")        # working fields of the last class a moments stage went through


def units(tier):
    u = []
    fine = tier != "quick"
    logics = ("rad", "micro", "emp") if not fine else ("rad", "micro", "emp", "emp_micro")
    for logic in logics:
        for conv in (True, False):
            for N in (3, 1) if fine or logic == "rad" else (3,):
                for kinds in (["radar"], ["lidar"]):
                    u.append({"tier": tier, "kinds": kinds, "logic": logic, "conv": conv, "N": N, "start": "bare", "fine": fine and (N == 3)})
                u.append({"tier": tier, "kinds": ["radar", "lidar"], "logic": logic, "conv": conv, "N": N, "start": "generated", "fine": False})
                if fine and not conv:
                    u.append({"tier": tier, "kinds": ["radar", "lidar"], "logic": logic, "conv": conv, "N": N, "start": "bare", "fine": False})
    u.sort(key=lambda v: (not v["conv"], -len(v["kinds"]), v["N"] == 1))
    return u


def stages(u):
    """name -> (call, needed stages); the order of the table is the documented order."""
    import emc2.simulator as s
    N, logic, conv = u["N"], u["logic"], u["conv"]
    rad = logic in ("rad", "emp")
    par = dict(parallel=False, chunk=None)
    ops = {}
    sides = ("strat", "conv")[:1 + conv]
    if conv:
        for h in ("cl", "ci"):
            ops["conv_frac:" + h] = (lambda m, h=h: s.subcolumn.set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad), [])
    ops["strat_frac"] = (lambda m: s.subcolumn.set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, **par), [k for k in ops])
    cloud = {"strat": ["strat_frac"], "conv": ["conv_frac:cl", "conv_frac:ci"]}
    for c in sides:
        ops["precip_frac:" + c] = (lambda m, c=c: s.subcolumn.set_precip_sub_col_frac(m, is_conv=c == "conv", use_rad_logic=rad, precip_types=["pl", "pi"], **par), cloud[c])
    groups = [["cl"], ["ci"], ["pl"], ["pi"]] if u["fine"] else [["cl", "ci"], ["pl", "pi"]]
    qs = {}
    for c in sides:
        qs[c] = []
        for g in groups:
            def f(m, c=c, g=g):
                for h in g:
                    m = s.subcolumn.set_q_n(m, h, is_conv=c == "conv", qc_flag=(h == "cl" and c == "strat"), use_rad_logic=rad, **par)
                return m
            need = (["precip_frac:" + c] if g[0] in ("pl", "pi") else []) + (cloud[c] if c == "strat" or g[0] in ("pl", "pi") else ["conv_frac:" + h for h in g])
            k = "mixing_ratio:%s:%s" % (c, "+".join(g))
            ops[k] = (f, need)
            qs[c].append(k)
    gen = list(ops)
    for kind in u["kinds"]:
        inst = chain.inst(kind)
        for c in sides:
            def f(m, c=c, kind=kind, inst=inst):
                g = s.radar_moments.calc_radar_moments if kind == "radar" else s.lidar_moments.calc_lidar_moments
                return g(inst, m, c == "conv", OD_from_sfc=True, mie_for_ice=not rad and c == "strat", use_rad_logic=rad, use_empiric_calc=logic.startswith("emp"), **par)
            ops["%s_moments:%s" % (kind, c)] = (f, qs[c])
        mom = ["%s_moments:%s" % (kind, c) for c in sides]
        if kind == "radar":
            ops["Ze_min"] = (lambda m, i=inst: s.attenuation.calc_radar_Ze_min(i, m, 1000.), [])
            ops["total_Ze"] = (lambda m: s.radar_moments.calc_total_reflectivity(m, detect_mask=True), mom + ["Ze_min"])
            ops["radar_classes"] = (lambda m, i=inst: s.classification.radar_classify_phase(i, m), ["total_Ze"])
        else:
            ops["total_beta"] = (lambda m: s.lidar_moments.calc_total_alpha_beta(m, OD_from_sfc=True), mom)
            ops["LDR"] = (lambda m: s.lidar_moments.calc_LDR_and_ext(m, OD_from_sfc=True), ["total_beta"])
            ops["lidar_classes"] = (lambda m, i=inst: s.classification.lidar_classify_phase(i, m), ["LDR"])
            if inst.instrument_str == "HSRL":
                ops["COSP_classes"] = (lambda m, i=inst: s.classification.lidar_emulate_cosp_phase(i, m), mom)
    if u["start"] == "generated":
        for kind, st in (("radar", "radar_classes"), ("lidar", "lidar_classes")):
            v = "phase_mask_%s_all_hyd" % (chain.inst(kind).instrument_str + ("_sounding" if kind == "radar" else ""))
            ops["ratio:" + kind] = (lambda m, v=v: s.classification.calculate_phase_ratio(m, v, [1, 3]), [st])
            ops["mass_ratio:" + kind] = (lambda m, v=v: s.classification.calculate_phase_ratio(m, v, [1, 3], mass_pr=True, mpr_subcolmod=True), [st])
    return ops, gen


def closure(ops):
    """All stages that have to be completed before each stage."""
    full = {}
    for k, (_, need) in ops.items():
        full[k] = frozenset(need).union(*[full[n] for n in need])
    return full


def misuses(u):
    """Calls that no state permits: (name, call, whether it applies to a model with / without subcolumns)."""
    import copy

    import emc2.simulator as s
    N, rad = u["N"], u["logic"] in ("rad", "emp")
    par = dict(parallel=False, chunk=None)
    radar, lidar = chain.inst("radar"), chain.inst("lidar")
    other = copy.copy(radar)
    other.instrument_class, other.instrument_str = "sodar", "SODAR"
    raman = copy.copy(lidar)
    raman.instrument_str = "RL"
    c = s.classification
    out = []
    kw = dict(chain.LOGICS[u["logic"]], parallel=False)
    for k in (False, True)[:1 + u["conv"]]:
        nm = ("stratiform", "convective")[k]
        out += [("radar moments of a lidar, " + nm, lambda m, k=k: s.radar_moments.calc_radar_moments(lidar, m, k, **kw), None),
                ("lidar moments of a radar, " + nm, lambda m, k=k: s.lidar_moments.calc_lidar_moments(radar, m, k, **kw), None)]
        if u["conv"] or not k:
            out.append(("precipitation with another number of subcolumns, " + nm, lambda m, k=k: s.subcolumn.set_precip_sub_col_frac(
                m, is_conv=k, N_columns=N + 2, use_rad_logic=rad, precip_types=["pl", "pi"], **par), True))
            out.append(("precipitation without a number of subcolumns, " + nm, lambda m, k=k: s.subcolumn.set_precip_sub_col_frac(
                m, is_conv=k, use_rad_logic=rad, precip_types=["pl", "pi"], **par), False))
            out.append(("mixing ratios without subcolumns, " + nm, lambda m, k=k: s.subcolumn.set_q_n(m, "cl", is_conv=k, use_rad_logic=rad, **par), False))
    if u["conv"]:
        out.append(("convection with another number of subcolumns", lambda m: s.subcolumn.set_convective_sub_col_frac(m, "cl", N_columns=N + 2, use_rad_logic=rad), True))
    out += [("radar classes of a lidar", lambda m: c.radar_classify_phase(lidar, m), None), ("lidar classes of a radar", lambda m: c.lidar_classify_phase(radar, m), None),
            ("COSP classes of a radar", lambda m: c.lidar_emulate_cosp_phase(radar, m), None), ("COSP classes of another lidar", lambda m: c.lidar_emulate_cosp_phase(raman, m), None),
            ("gas attenuation of no instrument", lambda m: s.attenuation.calc_radar_atm_attenuation("KAZR", m), None),
            ("mixing ratios of an unknown class", lambda m: s.subcolumn.set_q_n(m, "xx", is_conv=False, use_rad_logic=rad, **par), None),
            ("ratio of an unknown mask", lambda m: c.calculate_phase_ratio(m, "phase_mask_nothing", [1]), None),
            ("simulation of another instrument", lambda m: s.main.make_simulated_data(m, other, None, skip_subcol_gen=True, **kw), None)]
    return out


def values(m):
    rank = {"subcolumn": 0, m.time_dim: 1, m.height_dim: 2}
    out = {}
    for k, v in m.ds.variables.items():
        if k not in WORK:
            a = v.values
            out[k] = a.transpose(sorted(range(a.ndim), key=lambda i: (rank.get(v.dims[i], 3), str(v.dims[i])))) if a.ndim > 1 else a
    return out


def same(a, b):
    return a.shape == b.shape and a.dtype.kind == b.dtype.kind and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def kept(before, m):
    """Names of fields of `before` that the model no longer holds as they were."""
    now = values(m)
    return [k for k in before if k not in now or not same(before[k], now[k])]


def call(f, m):
    """(result, error): any exception counts as a refusal."""
    with chain.fixed(1):
        try:
            return f(m), None
        except Exception as e:
            return None, e


def scene(conv):
    """Convection with more liquid than ice below and more ice than liquid above, so that neither class stands for the other."""
    m = p08.clone(p07.build(SEQ, conv))
    for table in (m.conv_frac_names, m.conv_frac_names_for_rad, m.q_names_convective):
        for a, b in (("cl", "ci"), ("pl", "pi")):
            x, y = m.ds[table[a]].values, m.ds[table[b]].values
            if np.shares_memory(x, y) or table is m.conv_frac_names_for_rad and table[a] == m.conv_frac_names[a]:
                continue
            x[:, 2:], y[:, 2:] = y[:, 2:].copy(), x[:, 2:].copy()
    return m


def run_unit(u, rec):
    ops, gen = stages(u)
    need = closure(ops)
    raw = scene(u["conv"])
    # the documented order, and what every stage adds in it
    m, order, owner, canonical = p08.clone(raw), [], {}, {}
    for k, (f, _) in ops.items():
        before = values(m)
        m, err = call(f, m)
        rec.trace()
        if not rec.check(err is None, "order:%s" % k.split(":")[0], lambda: "%s refuses in the documented order: %r" % (k, err), {"unit": u, "done": order, "stage": k}):
            return
        for v, a in values(m).items():
            if v not in before or not same(before[v], a):
                owner.setdefault(v, []).append(k)
                canonical[k, v] = a
        order.append(k)
    final = values(m)
    start = frozenset()
    if u["start"] == "generated":
        m = p08.clone(raw)
        for k in gen:
            m, _ = call(ops[k][0], m)
        start, raw = frozenset(gen), m
    wrong = misuses(u)
    seen = {start: raw}
    todo = [start]
    while todo:
        nxt = []
        for st in todo:
            base = values(seen[st])
            rec.state((tuple(u["kinds"]), u["logic"], u["conv"], u["N"], u["start"], tuple(sorted(st))))
            for k, (f, _) in ops.items():
                if u["start"] == "generated" and k in gen:
                    continue
                case = {"unit": u, "done": sorted(st), "stage": k}
                r, err = call(f, x := p08.clone(seen[st]))
                rec.trace()
                rec.step()
                nm = k.split(":")[0]
                if need[k] <= st:
                    if not rec.check(err is None, "refuses:" + nm, lambda: "%s refuses although %s are done: %r" % (k, sorted(st), err), case):
                        continue
                    v, n = values(r), st | {k}
                    if n in seen:
                        w = values(seen[n])
                        bad = [z for z in sorted(set(v) | set(w)) if z not in v or z not in w or (not same(v[z], w[z]) and diff_fields({z: w[z]}, {z: v[z]}, 1e-12))]
                        rec.check(not bad, ("again:" if k in st else "order:") + nm, lambda: "after %s, %s %s: %s" % (
                            sorted(st), k, "called again changes the model" if k in st else "gives another model than another order of the same stages", describe(w, v, bad[0])), case)
                    else:
                        seen[n] = r
                        nxt.append(n)
                    lost = [z for z in base if z not in v]
                    rec.check(not lost, "lost:" + nm, lambda: "%s removes %s" % (k, lost[:3]), case)
                    rec.outcome((k, "accepted"))
                else:
                    rec.outcome((k, "early", type(err).__name__))
                    if err is None:
                        # accepted early: it must give what it gives in its place
                        v = values(r)
                        bad = [z for (o, z), a in canonical.items() if o == k and (z not in v or diff_fields({z: a}, {z: v[z]}, 1e-12))]
                        rec.check(not bad, "early:" + nm, lambda: "%s is accepted although %s are missing, and gives another result than in its place: %s" % (
                            k, sorted(need[k] - st), describe({bad[0]: canonical[k, bad[0]]}, v, bad[0])), case)
                    else:
                        lost = kept(base, x)
                        rec.check(not lost, "damage:" + nm, lambda: "%s refuses (%r) but has changed %s" % (k, err, lost[:4]), case)
            for k, f, sub in wrong:
                has = "subcolumn" in seen[st].ds.dims
                if sub is not None and sub != has:
                    continue
                case = {"unit": u, "done": sorted(st), "misuse": k}
                r, err = call(f, x := p08.clone(seen[st]))
                rec.trace()
                rec.step()
                rec.check(err is not None, "misuse:" + k, lambda: "after %s, %s is accepted" % (sorted(st), k), case)
                lost = kept(base, x)
                rec.check(not lost, "misuse-damage:" + k, lambda: "after %s, %s changes %s" % (sorted(st), k, lost[:4]), case)
                rec.outcome((k, type(err).__name__))
        todo = nxt
    full = [n for n in seen if len(n) == len(ops)]
    rec.check(len(full) == 1, "reach", lambda: "no order completes all stages: %d states" % len(seen), {"unit": u})
    if full:
        v = values(seen[full[0]])
        bad = [z for z in final if z not in v or diff_fields({z: final[z]}, {z: v[z]}, 1e-12)]
        rec.check(not bad, "final", lambda: "all stages done, but %s" % describe(final, v, bad[0]), {"unit": u})
    rec.note("stage_sets", len(seen))
    rec.sample({"unit": u, "sets": len(seen), "stages": len(ops)})
