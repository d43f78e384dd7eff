"""P16: saved subcolumn output restores exactly; finalizing and removing fields touch exactly what they name."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import chain, scene, synth
from ..scene import canon, describe
from . import p07

BOUNDS = {
    "quick": "every history of 5 operations out of {save to file A or B, load A or B into a fresh model, load A over the current fields (restores or refuses), change the fields, delete A} against a reference store; round trip of whole "
             "simulations for radar/lidar x 3 logics x convection x classification x finalized x 1 or 3 subcolumns, then re-simulated without subcolumn generation; "
             "finalize/remove over all fields of those simulations",
    "thorough": "histories of 6 operations",
}
RULE = "state = (contents of the model, contents of both files); transition = one operation on the real code; all fields, data types and attributes compared"
ASSUMPTIONS = ["files live in a scratch directory created and removed by the check"]
OPS = ["save A", "save B", "load A", "load B", "change", "delete A", "merge A"]


def units(tier):
    n = 5 if tier == "quick" else 6
    u = [{"kind": "hist", "first": a, "second": b, "n": n} for a in OPS for b in OPS]
    for inst, logic, conv, cls, fin, N in itertools.product(("radar", "lidar"), ("rad", "micro", "emp"), (True, False), (True, False), (True, False), (1, 3)):
        if (cls, fin) in ((True, False), (False, True)) or logic == "rad":
            u.append({"kind": "round", "inst": inst, "logic": logic, "conv": conv, "cls": cls, "fin": fin, "N": N})
    return u


def run_unit(u, rec):
    d = tempfile.mkdtemp(prefix="mc_p16_")
    try:
        (hist if u["kind"] == "hist" else roundtrip)(u, rec, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


FIELDS = {"sub_col_Ze_tot": float, "phase_mask_X_all_hyd": np.uint8, "strat_q_subcolumns_cl": float, "strat_frac_subcolumns_cl": bool, "detect_mask": bool}


def fill(m, tagv):
    for i, (k, t) in enumerate(FIELDS.items()):
        a = (np.arange(8).reshape(2, 2, 2) * (i + 1) + tagv * (i + 3)) % (2 if t is bool else 200)
        a = a.astype(t)
        if t is float:
            a = a + .123456789
            a[0, 0, 0], a[1, 1, 1] = np.nan, 0.
        m.ds[k] = (("subcolumn", "time", "height"), a)
        m.ds[k].attrs = {"long_name": "field %d" % tagv, "legend": ["a%d" % tagv, "b"], "units": "dBZ"}


def snap(m, names=None):
    out = {}
    for k in (names or FIELDS):
        if k in m.ds:
            v = m.ds[k]
            out[k] = (tuple(v.dims), str(v.dtype), np.array(v.values), {a: (list(b) if isinstance(b, (list, tuple, np.ndarray)) else b) for a, b in v.attrs.items()})
    return out


def same(a, b):
    if set(a) != set(b):
        return "fields %r instead of %r" % (sorted(a), sorted(b))
    for k in a:
        x, y = a[k], b[k]
        if x[0] != y[0]:
            return "%s has dimensions %r instead of %r" % (k, x[0], y[0])
        if x[1] != y[1]:
            return "%s has type %s instead of %s" % (k, x[1], y[1])
        if not np.array_equal(x[2], y[2], equal_nan=x[2].dtype.kind == "f"):
            return "values of %s changed" % k
        for q in y[3]:
            if q not in x[3] or not np.array_equal(np.ravel(x[3][q]), np.ravel(y[3][q])):
                return "attribute %s of %s is %r instead of %r" % (q, k, x[3].get(q), y[3][q])
    return None


def fresh():
    return synth.make_model(2, 2, process_conv=False)


def hist(u, rec, d):
    import pickle  # noqa
    for rest in itertools.product(OPS, repeat=u["n"] - 2):
        h = (u["first"], u["second"]) + rest
        m = fresh()
        m.num_subcolumns = 2
        fill(m, 0)
        cur, files, tagv, ok = snap(m), {}, 0, True
        for f in "AB":
            if os.path.exists(d + "/" + f):
                os.remove(d + "/" + f)
        live = [m]
        for i, op in enumerate(h):
            if op.startswith(("load", "merge")) and op[-1] not in files or (op == "delete A" and "A" not in files) or (op == "change" and i and h[i - 1] == "change"):
                ok = False                                     # not an operation of this state (or a stutter)
                break
            if op.startswith("save"):
                m.subcolumns_to_netcdf(d + "/" + op[-1])
                files[op[-1]] = cur
            elif op.startswith("load"):
                m = fresh()
                m.load_subcolumns_from_netcdf(d + "/" + op[-1])
                live.append(m)
                cur = files[op[-1]]
                rec.check(m.num_subcolumns == 2, "hist:subcolumns", "%d subcolumns after loading" % m.num_subcolumns, {"history": h[:i + 1]})
            elif op.startswith("merge"):
                # loading into a model that already holds these fields restores the file or refuses (leaving the model alone), nothing in between
                try:
                    m.load_subcolumns_from_netcdf(d + "/" + op[-1])
                    cur = files[op[-1]]
                except Exception as e:
                    rec.outcome("refused: " + type(e).__name__)
            elif op == "change":
                tagv += 1
                fill(m, tagv)
                cur = snap(m)
            else:
                os.remove(d + "/A")
                files.pop("A")
            rec.step()
            rec.state((op, repr(sorted((k, v["phase_mask_X_all_hyd"][3]["long_name"]) for k, v in files.items())), cur["phase_mask_X_all_hyd"][3]["long_name"], i))
            if i == len(h) - 1 or op == "delete A" or op.startswith(("save", "merge")):
                # nothing is read between loading and the operation that may invalidate the file
                e = same(snap(m), cur)
                if not rec.check(e is None, "hist:%s" % op[:4], lambda: "%s after %s" % (e, " / ".join(h[:i + 1])), {"history": h[:i + 1]}):
                    ok = False
                    break
        if ok:
            rec.trace()
            rec.outcome((cur["phase_mask_X_all_hyd"][3]["long_name"], tuple(sorted(files))))
    rec.sample({"history": [u["first"], u["second"], "..."], "length": u["n"]})


def roundtrip(u, rec, d):
    import emc2
    names = ["mixed", "conv", "over"]

    def new():
        m = p07.build(names, u["conv"])
        return m
    base = set(new().ds.data_vars)
    kw = dict(do_classify=u["cls"])
    m = new()
    chain.simulate(m, u["inst"], u["logic"], u["N"], **kw)
    if u["cls"] and u["inst"] == "lidar":
        emc2.simulator.classification.lidar_emulate_cosp_phase(chain.inst("lidar"), m, output_ATB=True)
        emc2.simulator.classification.calculate_phase_ratio(m, "phase_mask_HSRL_all_hyd", 1)
        emc2.simulator.classification.calculate_phase_ratio(m, "phase_mask_HSRL_all_hyd", [1, 2], mass_pr=True, mpr_subcolmod=True)
    # N_0, mu and lambda are working arrays of the last hydrometeor class, not output
    must = [k for k in m.ds.data_vars if k not in base and k not in ("N_0", "mu", "lambda") and "subcolumn" in m.ds[k].dims] + [k for k in ("Ze_min", "atm_ext", "phase_mask_HSRL_all_hyd_fpr") if k in m.ds]
    before = snap(m, [k for k in m.ds.data_vars])
    if u["fin"]:
        m.finalize_subcol_fields(["Ze_min"])
        rec.trace()
        for k, (dims, dt, v, at) in before.items():
            w = np.where(v == 0, np.nan, v) if "sub_col" in k or "Ze_min" in k else v
            g = np.asarray(m.ds[k].values)
            rec.step(g.size)
            rec.check(np.array_equal(g.astype(float), w.astype(float), equal_nan=True), "finalize", lambda: "finalizing: values of %s" % k, u)
            rec.check(m.ds[k].attrs == at or not at, "finalize:attrs", "finalizing lost attributes of %s" % k, u)
    saved = snap(m, must)
    m.subcolumns_to_netcdf(d + "/f.nc")
    e = same(snap(m, must), saved)
    rec.check(e is None, "save:changes", lambda: "saving changed the model: %s" % e, u)
    m2 = new()
    m2.load_subcolumns_from_netcdf(d + "/f.nc")
    rec.trace()
    e = same(snap(m2, must), saved)
    rec.check(e is None, "round", lambda: "after loading: %s" % e, u)
    rec.check(m2.num_subcolumns == u["N"], "round:subcolumns", "%d subcolumns after loading" % m2.num_subcolumns, u)
    e = same(snap(m2, sorted(base)), snap(new(), sorted(base)))
    rec.check(e is None, "round:inputs", lambda: "loading changed the model input: %s" % e, u)
    rec.note("fields", len(must))
    rec.state(repr(u))
    rec.outcome((repr(u), len(must)))
    if not u["fin"]:
        chain.simulate(m2, u["inst"], u["logic"], u["N"], skip_subcol_gen=True, **kw)
        rec.trace()
        for k in must:
            if "COSP" in k or k.endswith(("_mpr", "_fpr")):
                continue
            a, b = canon(m, m.ds[k]), canon(m2, m2.ds[k])
            ok = a.shape == b.shape and np.array_equal(a.astype(float), b.astype(float), equal_nan=True)
            rec.check(ok, "resume", lambda: "simulating from loaded subcolumns: %s" % describe({k: a}, {k: b}, k), u)
    for c in ("conv", "strat"):
        x = m.ds.copy()
        keep = [k for k in x.data_vars if not (c in k and any(s in k for s in ("sub_col", "subcol", "phase_mask")))]
        gone = m.ds
        m.ds = x
        m.remove_subcol_fields(c)
        rec.trace()
        rec.check(sorted(map(str, m.ds.data_vars)) == sorted(map(str, keep)), "remove", lambda: "fields left: %r" % sorted(set(map(str, m.ds.data_vars)) ^ set(map(str, keep))), dict(u, cloud_class=c))
        for k in keep:
            rec.step()
            if k in m.ds and m.ds[k].dtype.kind in "fbiu":
                rec.check(np.array_equal(np.asarray(m.ds[k].values, float), np.asarray(gone[k].values, float), equal_nan=True), "remove:values", "removing fields changed %s" % k, dict(u, cloud_class=c))
        m.ds = gone
    rec.sample(dict(u, fields=len(must)))
