"""P08: the result of a simulation does not depend on what was simulated before on the same model object."""
import copy
import hashlib

import numpy as np

from .. import chain, subcol, synth
from ..scene import canon, describe, diff_fields
from . import p07

BOUNDS = {
    "quick": "13 operations (2 subcolumn generations, radar x5, lidar x6): every history of length 2 and, over 6 of them, every history of length 3; states with equal "
             "contents merged; one mixed scene with convection, one without",
    "thorough": "17 operations (also a second radar, attenuation from the top, subsets of classes, classification): every history of length 3 and over 7 of them length 4, ModelE and CESM radiation",
}
RULE = "state = contents of the model's dataset after a history; transition = one operation executed on it, judged against the " \
       "same operation executed directly after the last subcolumn generation on a fresh model"
ASSUMPTIONS = ["random answers are fixed functions of the request; each generation uses its own fixed answers"]
N = 3
SEQ = ["mixed", "conv", "warm"]


def ops(tier):
    o = {"gen_rad": ("gen", "rad", dict(k=1)), "gen_micro": ("gen", "micro", dict(k=2)),
         "radar_rad": ("radar", "rad", {}), "radar_micro": ("radar", "micro", {}), "radar_emp": ("radar", "emp", {}),
         "radar_micro_nosw": ("radar", "micro", dict(calc_spectral_width=False)),
         "radar_rad_sub": ("radar", "rad", dict(hyd_types=["pi", "cl"])),
         "lidar_rad": ("lidar", "rad", {}), "lidar_micro": ("lidar", "micro", {}), "lidar_emp": ("lidar", "emp", {}),
         "lidar_micro_sub": ("lidar", "micro", dict(hyd_types=["pi", "cl"])),
         "lidar_toa": ("lidar", "rad", dict(OD_from_sfc=False)),
         "lidar_classify": ("lidar", "rad", dict(do_classify=True))}
    if tier != "quick":
        o.update({"radar_toa": ("radar", "micro", dict(OD_from_sfc=False)),
                  "radar_classify": ("radar", "rad", dict(do_classify=True)),
                  "radar2": ("radar2", "rad", {}),
                  "lidar_mie": ("lidar", "rad", dict(mie_for_ice=True))})
    return o


CORE = ["gen_micro", "radar_rad", "radar_micro", "radar_micro_nosw", "lidar_micro", "lidar_rad"]


def units(tier):
    u = []
    for rad, conv in (("ModelE", True), ("ModelE", False)) if tier == "quick" else \
            (("ModelE", True), ("ModelE", False), ("CESM", True), ("CESM", False)):
        for a in ops(tier):
            u.append({"tier": tier, "rad": rad, "conv": conv, "first": a})
    return u


def clone(m):
    c = copy.copy(m)
    c.ds = m.ds.copy(deep=True)
    for k, v in vars(c).items():
        if isinstance(v, dict):
            setattr(c, k, dict(v))
        elif isinstance(v, list):
            setattr(c, k, list(v))
    return c


def values(m):
    return {k: canon(m, m.ds[k]) for k in m.ds.data_vars}


def digest(m):
    h = hashlib.blake2b(digest_size=8)
    for k, v in sorted(values(m).items()):
        h.update(k.encode())
        h.update(np.ascontiguousarray(v).tobytes())
    return h.hexdigest()


_R2 = []


def instrument(kind):
    if kind == "radar2":
        if not _R2:
            from emc2.core.instrument import ureg
            import emc2
            i = emc2.core.Instrument(frequency=94. * ureg.GHz)
            src = chain.inst("radar")
            i.instrument_class, i.instrument_str = "radar", "SRAD2"
            i.K_w, i.eps_liq, i.Z_min_1km, i.OD_from_sfc = 0.7, src.eps_liq, -40., False
            i.mie_table, i.scat_table, i.bulk_table = src.mie_table, src.scat_table, dict(src.bulk_table)
            i.bulk_table["E3_liq"] = synth._bulk(.5, .9)
            _R2.append(i)
        return _R2[0]
    return chain.inst(kind)


def tables(i):
    h = hashlib.blake2b(digest_size=8)
    for tab in (i.mie_table, i.scat_table, i.bulk_table):
        for k in sorted(tab):
            for v in sorted(tab[k].variables):
                h.update(np.ascontiguousarray(tab[k][v].values).tobytes())
    for a in ("OD_from_sfc", "K_w", "eta", "ext_OD", "Z_min_1km", "freq", "wavelength", "instrument_str", "instrument_class",
              "beta_p_phase_thresh"):
        h.update(repr(getattr(i, a, None)).encode())
    return h.hexdigest()


def apply(m, op):
    kind, logic, kw = op
    kw = dict(kw)
    if kind == "gen":
        chain.simulate(m, "radar", logic, N, subcol_gen_only=True, **kw)
    else:
        chain.simulate(m, kind, logic, N, skip_subcol_gen=True, instrument=instrument(kind), **kw)


def run_unit(u, rec):
    O = ops(u["tier"])
    raw = p07.build(SEQ, u["conv"], u["rad"])
    inputs = values(raw)
    attrs0 = attrs(raw)
    gens, expect = {}, {}
    for g in ("gen_rad", "gen_micro"):
        m = clone(raw)
        apply(m, O[g])
        gens[g] = m
        expect[(None, g)] = {k: v for k, v in values(m).items() if k not in inputs}
    tabs = {k: tables(instrument(k)) for k in ("radar", "radar2", "lidar")}

    def expected(g, name):
        if O[name][0] == "gen":
            return expect[(None, name)]
        if (g, name) not in expect:
            m = clone(gens[g])
            b = values(m)
            apply(m, O[name])
            expect[(g, name)] = {k: v for k, v in values(m).items() if k not in b}
        return expect[(g, name)]
    seen = set()

    def visit(m, g, hist, depth, names):
        for name in names:
            c = clone(m)
            apply(c, O[name])
            rec.trace()
            rec.step()
            h = hist + (name,)
            got = values(c)
            ng = name if O[name][0] == "gen" else g
            exp = expected(ng, name)
            bad = diff_fields(exp, {k: got[k] for k in exp if k in got}, rtol=1e-12, atol=0)
            rec.outcome((name, ng, bool(bad)))
            case = {"history": list(h), "rad": u["rad"], "conv": u["conv"], "fields": bad[:6]}
            if bad:
                rec.violation("history:" + name, "after %s the result of %s differs from a fresh model: %s" % (
                    list(hist), name, describe(exp, got, bad[0])), case)
                continue
            bi = diff_fields(inputs, {k: got[k] for k in inputs if k in got})
            if bi:
                rec.violation("input:" + name, "%s changed the model's input field: %s" % (name, describe(inputs, got, bi[0])), case)
            if attrs(c) != attrs0:
                rec.violation("attributes:" + name, "%s changed the model's settings: %s" % (name, [
                    (k, attrs0.get(k), attrs(c).get(k)) for k in attrs0 if attrs0[k] != attrs(c).get(k)][:3]), case)
            for k in tabs:
                if tables(instrument(k)) != tabs[k]:
                    rec.violation("instrument:" + name, "%s changed the tables or settings of an instrument" % name, case)
                    tabs[k] = tables(instrument(k))
            d = (digest(c), ng)
            rec.state((u["rad"], u["conv"], d))
            if depth > 1 and (d, depth, len(names)) not in seen:
                seen.add((d, depth, len(names)))
                visit(c, ng, h, depth - 1, names)
    first = u["first"]
    core = CORE if u["tier"] == "quick" else CORE + ["radar_emp"]
    m = clone(gens["gen_rad"])
    visit_first(m, first, visit, O, core, 2 if u["tier"] == "quick" else 3, u)
    rec.sample({"first": first, "operations": sorted(O)})


def visit_first(m, first, visit, O, core, depth, u):
    allv = list(O)
    # the first operation, then every continuation
    c = clone(m)
    apply(c, O[first])
    g = first if O[first][0] == "gen" else "gen_rad"
    visit(c, g, (first,), depth - 1, allv)
    if first in core:
        visit(c, g, (first,), depth, core)


def attrs(m):
    out = {}
    for k, v in vars(m).items():
        if k in ("ds", "interpobj"):
            continue
        if isinstance(v, (dict, list, tuple, str, int, float, bool, type(None))):
            out[k] = repr(sorted(v.items(), key=lambda x: str(x[0])) if isinstance(v, dict) else v)
    return out
