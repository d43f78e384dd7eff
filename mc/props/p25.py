"""P25: one call of make_simulated_data does what the documented stages, called one after the other with the corresponding arguments, do."""
import itertools

import numpy as np

from .. import chain, synth
from ..scene import canon, describe, diff_fields
from . import p07, p08, p15

BOUNDS = {
    "quick": "radar and lidar x {radiation, microphysics, empirical, empirical with microphysics fractions} x convection on/off x two sets of instrument defaults x every combination of at "
             "most 2 (second instrument: 1) options departing from their default out of 11 (direction, ice spheres, classes, classification with its options, eta/ext_OD or sensitivity range, spectral width, "
             "dispersion, finalizing, skipping or stopping at the generator, chunks); stacked regional models with unstacking",
    "thorough": "as quick with at most 4 (microphysics logic: 3) departing options, for both instruments",
}
RULE = "one execution = one option combination through make_simulated_data, compared field by field with the stages called one by one"
ASSUMPTIONS = ["random answers are fixed functions of the request"]
SEQ, N = ["mixed", "conv", "warm"], 3
OUT = ("sub_col", "hyd_ext", "atm_ext", "Ze_min", "detect_mask", "ext_mask", "strat_", "conv_", "sigma_180", "phase_mask", "COSP", "Dm_")


def options(kind):
    o = {"OD_from_sfc": (True, False), "mie_for_ice": (True, False), "hyd_types": (["pi", "cl"], ["ci", "pl", "cl"]),
         "do_classify": (True,), "convert_zeros_to_nan": (True,), "finalize_fields": (True,), "skip_subcol_gen": (True,), "subcol_gen_only": (True,),
         "calc_spectral_width": (False,), "chunk": (2,), "calc_dispersion": (True, False)}
    if kind == "radar":
        o.update({"ref_rng": (400.,), "mask_height_rng": ((900., 3500.), [2000., 9000.])})
    else:
        o.update({"eta": (.6,), "ext_OD": (1.,)})
    return o


def units(tier):
    u = []
    for kind in ("radar", "lidar"):
        for logic in ("rad", "micro", "emp", "emp_micro"):
            for conv in (True, False):
                for inst in (0, 1):
                    parts = 3 if logic == "micro" else 1
                    for k in range(parts):
                        u.append({"tier": tier, "kind": kind, "logic": logic, "conv": conv, "inst": inst, "part": [k, parts]})
    for kind in ("radar", "lidar"):
        for t, a, o in itertools.product((1, 2), (None, 1, 2), (None, 1, 2)):
            if a or not o:
                u.append({"tier": tier, "region": True, "kind": kind, "t": t, "lat": a, "lon": o})
    return u


_I = {}


def instrument(kind, v):
    """Two instruments of each kind that differ in every default the call takes from the instrument."""
    if (kind, v) not in _I:
        i = synth.make_instrument(kind, OD_from_sfc=not v)
        if kind == "lidar":
            i.ext_OD, i.eta = (4., 1.) if not v else (1.5, .8)
        _I[kind, v] = i
    return _I[kind, v]


def combos(kind, logic, depth):
    o = options(kind)
    if logic != "micro":
        o.pop("calc_dispersion")
        if logic != "rad":
            o.pop("chunk")
    for d in range(depth + 1):
        for names in itertools.combinations(sorted(o), d):
            for vals in itertools.product(*[o[n] for n in names]):
                yield dict(zip(names, vals))


def stages(m, inst, logic, kw):
    """The documented stages, in their documented order."""
    import emc2.simulator as s
    kind = inst.instrument_class
    rad = logic in ("rad", "emp")
    par = dict(parallel=False, chunk=kw.get("chunk"))
    classes = list(m.conv_frac_names)
    with chain.fixed(1):
        if not kw.get("skip_subcol_gen"):
            if m.process_conv:
                for h in classes:
                    m = s.subcolumn.set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad)
            m = s.subcolumn.set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, **par)
            precip = [h for h in classes if h not in ("cl", "ci")]
            for c in (False, True)[:1 + bool(m.process_conv)]:
                m = s.subcolumn.set_precip_sub_col_frac(m, is_conv=c, use_rad_logic=rad, precip_types=precip, **par)
            for h in classes:
                for c in (False, True)[:1 + bool(m.process_conv)]:
                    m = s.subcolumn.set_q_n(m, h, is_conv=c, qc_flag=(h == "cl" and not c), use_rad_logic=rad, **par)
        if not kw.get("subcol_gen_only"):
            od = kw.get("OD_from_sfc", inst.OD_from_sfc)
            hyd = kw.get("hyd_types")
            eta, ext = kw.get("eta", getattr(inst, "eta", None)), kw.get("ext_OD", getattr(inst, "ext_OD", None))
            zn = kw.get("convert_zeros_to_nan", False)
            for c in (False, True)[:1 + bool(m.process_conv)]:
                mie = kw.get("mie_for_ice", not rad and not c)     # spheres by default only for stratiform ice with microphysics logic
                a = dict(OD_from_sfc=od, hyd_types=hyd, mie_for_ice=mie, use_rad_logic=rad, use_empiric_calc=logic.startswith("emp"), **par)
                if "calc_dispersion" in kw:
                    a["calc_dispersion"] = kw["calc_dispersion"]
                if kind == "radar":
                    m = s.radar_moments.calc_radar_moments(inst, m, c, calc_spectral_width=kw.get("calc_spectral_width", True), **a)
                else:
                    m = s.lidar_moments.calc_lidar_moments(inst, m, c, eta=eta, **a)
            if kind == "radar":
                m = s.attenuation.calc_radar_Ze_min(inst, m, kw.get("ref_rng", 1000.))
                m = s.radar_moments.calc_total_reflectivity(m, detect_mask=True)
                if kw.get("do_classify"):
                    m = s.classification.radar_classify_phase(inst, m, mask_height_rng=kw.get("mask_height_rng"), convert_zeros_to_nan=zn)
            else:
                m = s.lidar_moments.calc_total_alpha_beta(m, OD_from_sfc=od, eta=eta)
                m = s.lidar_moments.calc_LDR_and_ext(m, ext_OD=ext, OD_from_sfc=od, hyd_types=hyd)
                if kw.get("do_classify"):
                    m = s.classification.lidar_classify_phase(inst, m, convert_zeros_to_nan=zn)
                    m = s.classification.lidar_emulate_cosp_phase(inst, m, eta=eta, OD_from_sfc=od, convert_zeros_to_nan=zn, hyd_types=hyd)
    if kw.get("finalize_fields"):
        for k in m.ds.data_vars:
            if "sub_col" in str(k):
                m.ds[k] = m.ds[k].where(m.ds[k] != 0)
    return m


def fields(m):
    return {k: canon(m, m.ds[k]) for k in m.ds.data_vars}


def run_unit(u, rec):
    if u.get("region"):
        return region(u, rec)
    depth = (2 if u["inst"] == 0 else 1) if u["tier"] == "quick" else (3 if u["logic"] == "micro" else 4)
    inst = instrument(u["kind"], u["inst"])
    raw = p07.build(SEQ, u["conv"])
    m0 = p08.clone(raw)
    inputs = fields(raw)
    # a generated model with other fixed answers, for the combinations that skip the generator
    gen = p08.clone(raw)
    chain.simulate(gen, "radar", "rad" if u["logic"] in ("rad", "emp") else "micro", N, k=2, subcol_gen_only=True)
    for n, kw in enumerate(combos(u["kind"], u["logic"], depth)):
        if n % u["part"][1] != u["part"][0]:
            continue
        start = gen if kw.get("skip_subcol_gen") else m0
        case = {"options": {k: (list(v) if isinstance(v, tuple) else v) for k, v in kw.items()}, "unit": u}
        exp = fields(stages(p08.clone(start), inst, u["logic"], kw))
        given = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
        r = chain.simulate(p08.clone(start), u["kind"], u["logic"], N, instrument=inst, **given)
        got = fields(r)
        rec.trace()
        rec.state((u["kind"], u["logic"], u["conv"], u["inst"], repr(sorted(kw.items()))))
        for k in sorted(exp):
            rec.step()
            ok = k in got and exp[k].shape == got[k].shape and (np.array_equal(exp[k], got[k], equal_nan=exp[k].dtype.kind == "f") or not diff_fields({k: exp[k]}, {k: got[k]}, 1e-12))
            rec.check(ok, "stages:%s:%s" % (u["kind"], u["logic"]), lambda: "make_simulated_data(%s) differs from the stages: %s" % (
                ", ".join("%s=%r" % z for z in kw.items()), describe(exp, got, k)), case)
        extra = [k for k in got if k not in exp and k not in inputs and str(k).startswith(OUT)]
        rec.check(not extra, "extra:%s:%s" % (u["kind"], u["logic"]), lambda: "make_simulated_data(%s) produces %s, which the requested stages do not" % (kw, extra[:3]), case)
        rec.check(given == kw, "arguments", "an argument was modified", case)
        rec.outcome((u["kind"], u["logic"], len(exp)))
    rec.sample({"unit": u, "fields": len(exp)})


def region(u, rec):
    inst = instrument(u["kind"], 0)
    v = dict(u, n=None)
    for unstack, kw in itertools.product((None, False, True), ({}, {"do_classify": True}, {"finalize_fields": True}, {"subcol_gen_only": True})):
        a, dims, _ = p15.region_model(v)
        b, _, _ = p15.region_model(v)
        for m in (a, b):
            m.check_and_stack_time_lat_lon()
        a = stages(a, inst, "rad", kw)
        stacked = a.stacked_time_dim is not None
        if unstack and stacked:
            a.unstack_time_lat_lon()
        b = chain.simulate(b, u["kind"], "rad", N, instrument=inst, **dict(kw, **({} if unstack is None else {"unstack_dims": unstack})))
        rec.trace()
        rec.state((u["kind"], u["t"], u["lat"], u["lon"], unstack, repr(kw)))
        case = {"options": dict(kw, unstack_dims="left out" if unstack is None else unstack), "unit": u}
        rec.check(set(map(str, a.ds.dims)) == set(map(str, b.ds.dims)), "unstack:dims", lambda: "dimensions are %r, expected %r" % (tuple(b.ds.dims), tuple(a.ds.dims)), case)
        for k in a.ds.data_vars:
            rec.step()
            ok = k in b.ds and set(a.ds[k].dims) == set(b.ds[k].dims)
            if ok:
                x, y = a.ds[k].values, b.ds[k].transpose(*a.ds[k].dims).values
                ok = x.shape == y.shape and (x.dtype.kind not in "fiub" or np.allclose(x.astype(float), y.astype(float), rtol=1e-12, atol=0, equal_nan=True))
            rec.check(ok, "unstack:values", "%s differs with unstack_dims=%r" % (k, unstack), case)
        rec.outcome((u["kind"], unstack, stacked))
