"""P29: a processed dataset that was saved and loaded again carries on exactly where it left off."""
import copy
import hashlib
import os
import shutil
import tempfile

import numpy as np

from .. import chain, env
from . import p19, p24, p28

BOUNDS = {
    "quick": "every model class that loads processed data x all its options x {radiation, microphysics} logic: all sequences of generation followed by up to 2 of {radar, lidar, finalize}, "
             "saved to one file and loaded as processed data at every subset of the points between operations (start and end included); "
             "single columns (also ModelE on its level coordinate and E3SM/CESM2 with the ncol layout) and 2 x 2 regions, unstacked by the simulator, loaded with every time range whose ends lie on, between and around 3 instants",
    "thorough": "up to 3 operations after generation, 4 instants",
}
RULE = "state = (operations done, points where the data went through the file); every variable of the dataset is compared with the same operations without the file"
ASSUMPTIONS = ["the whole dataset is saved with xarray's to_netcdf, as the documentation of load_processed implies (an EMC2-processed dataset)",
               "attributes are compared through np.ravel (netCDF stores one-element lists as scalars)",
               "random numbers of one operation do not depend on what ran before it (controlled by the check)"]
OPS = "RLF"


def configs():
    return [(c, kw) for c, kw in p28.configs("quick") if c != "WRF"]


def units(tier):
    n = 2 if tier == "quick" else 3
    u = []
    for c, kw in configs():
        e = p28.expect(c, dict(kw))
        u += [{"kind": "hist", "cls": c, "options": kw, "logic": lg, "n": n} for lg in ("rad", "micro") if lg == "micro" or e.get("re")]
        u += [{"kind": "range", "cls": c, "options": kw, "region": r, "T": n + 1} for r in (False, True)]
        if c == "ModelE":                                               # files on numbered levels
            u += [{"kind": "hist", "cls": c, "options": kw, "logic": "micro", "n": n, "hd": "level"}]
            u += [{"kind": "range", "cls": c, "options": kw, "region": r, "T": n + 1, "hd": "level"} for r in (False, True)]
        if c in ("E3SMv1", "E3SMv3", "CESM2"):                          # files with time along an ncol dimension
            u += [{"kind": "range", "cls": c, "options": dict(kw, time_dim="ncol"), "region": False, "T": n + 1}]
    return u


def run_unit(u, rec):
    d = tempfile.mkdtemp(prefix="emc2-p29-")
    insts = {"R": p19.instrument("KAZR"), "L": p19.instrument("HSRL")}
    try:
        (hist if u["kind"] == "hist" else ranges)(u, rec, d, insts)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sha(p):
    with open(p, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def clone(m):
    c = copy.copy(m)
    c.ds = m.ds.copy(deep=True)
    return c


def diff(a, b):
    """First difference of two datasets (None if there is none); the order of dimensions is no observable."""
    for k in sorted(set(map(str, a.variables)) | set(map(str, b.variables))):
        if k not in a.variables or k not in b.variables:
            return "variables", "%s exists only %s" % (k, "without the file" if k in a.variables else "after loading")
        x, y = a[k].variable, b[k].variable
        if set(x.dims) != set(y.dims) or any(x.sizes[d] != y.sizes[d] for d in x.dims):
            return "shape", "%s is %s instead of %s" % (k, dict(y.sizes), dict(x.sizes))
        y = y.transpose(*x.dims)
        v, w = np.asarray(x.values), np.asarray(y.values)
        if v.dtype.kind in "fiub" and w.dtype.kind in "fiub":
            bad = ~((v == w) | ((v != v) & (w != w)))
        else:
            bad = v != w if v.dtype.kind == w.dtype.kind else np.ones(v.shape, bool)
        if np.any(bad):
            i = tuple(np.argwhere(bad)[0]) if v.ndim else ()
            return "values", "%s%s is %r instead of %r" % (k, list(map(int, i)), w[i], v[i])
        for n in set(x.attrs) | set(y.attrs):
            p, q = x.attrs.get(n), y.attrs.get(n)
            if n not in x.attrs or n not in y.attrs or list(map(str, np.ravel(p))) != list(map(str, np.ravel(q))):
                if k in a.coords and n in ("units", "calendar"):
                    continue
                return "attributes", "attribute %s of %s is %r instead of %r" % (n, k, q, p)
    return None


class Broken(Exception):
    pass


def reload(m, u, path, lidar, rec, case, **kw):
    """Save the dataset, load it as processed data."""
    import emc2
    o = dict(u["options"], **kw)
    if u["cls"] == "E3SMv3" and o.get("mcphys_scheme", "P3") == "P3":
        o["instrument"] = lidar
    rec.trace()
    rec.step()
    if m is not None:
        try:
            m.ds.to_netcdf(path)
        except Exception as e:  # noqa: BLE001
            rec.check(False, "save:" + type(e).__name__, "saving failed: %s: %s" % (type(e).__name__, str(e)[:150]), case)
            raise Broken
    h = sha(path)
    try:
        with env.quiet():
            r = getattr(emc2.core.model, u["cls"])(path, load_processed=True, **o)
    except Exception as e:  # noqa: BLE001
        rec.check(False, "load:" + type(e).__name__, "loading failed: %s: %s" % (type(e).__name__, str(e)[:150]), case)
        raise Broken
    rec.check(sha(path) == h, "file", "the processed file was changed by loading it", case)
    return r


def hist(u, rec, d, insts):
    cls, kw = u["cls"], dict(u["options"])
    e = p28.expect(cls, kw)
    raw = p28.build(cls, kw, p28.write(u, d, cls, kw, 2), insts["L"])
    raw.ds = raw.ds.load()
    path = os.path.join(d, "processed.nc")

    memo = {}

    def apply(m, op):
        rec.step()
        if op == "F":
            m.finalize_subcol_fields()
            return
        with env.quiet():
            if op == "G":
                chain.simulate(m, "radar", u["logic"], 4, instrument=insts["R"], subcol_gen_only=True)
            else:
                chain.simulate(m, "radar" if op == "R" else "lidar", u["logic"], 4, instrument=insts[op], skip_subcol_gen=True, do_classify=True)

    def visit(ref, m, done, name, used):
        """ref: the model that never saw a file; m: the one whose history is name."""
        rec.state((cls, str(sorted(kw.items())), u["logic"], name, u.get("hd")))
        case = {"cls": cls, "options": kw, "logic": u["logic"], "history": name, "height": u.get("hd", "p")}
        for s in (False, True):
            if s:
                try:
                    r = reload(clone(m), u, path, insts["L"], rec, case)
                except Broken:
                    return
                p28.attributes(r, e, rec, case)
                bad = diff(ref.ds, r.ds)
                if bad:
                    rec.check(False, "saved:" + bad[0], "after loading: " + bad[1], case)
                rec.outcome((name, bad is None))
            else:
                r = m
            if len(done) > u["n"]:
                continue
            for op in ("G" if not done else OPS):
                if done + op not in memo:
                    memo[done + op] = clone(ref)
                    apply(memo[done + op], op)
                a, b = memo[done + op], clone(r)
                if not s and not used:
                    visit(a, a, done + op, name + op, False)
                    continue
                nm = name + ("S" if s else "") + op
                try:
                    apply(b, op)
                except Exception as x:  # noqa: BLE001
                    rec.check(False, "run:" + op, "%s failed after loading: %s: %s" % (op, type(x).__name__, str(x)[:150]), dict(case, history=nm))
                    continue
                bad = diff(a.ds, b.ds)
                if bad:
                    rec.check(False, "run:%s:%s" % (op, bad[0]), "after loading and %s: %s" % (op, bad[1]), dict(case, history=nm))
                    continue
                visit(a, b, done + op, nm, True)
    visit(raw, raw, "", "", False)
    rec.sample({"cls": cls, "logic": u["logic"]})


def ranges(u, rec, d, insts):
    cls, kw, T = u["cls"], dict(u["options"]), u["T"]
    if cls == "DHARMA" and u["region"]:
        kw["time_dim"] = "time"
    sh = (2, 2) if u["region"] else ((1, 1) if cls == "DHARMA" else (None, None))
    u = dict(u, options=kw)
    src = p28.write(u, d, cls, dict(u["options"]), T, *((2, 2) if u["region"] else (None, None)))
    path = os.path.join(d, "processed.nc")
    m = p28.build(cls, kw, src, insts["L"])
    with env.quiet():
        chain.simulate(m, "lidar", "micro", 3, instrument=insts["L"], do_classify=True, unstack_dims=True)
    ref = m.ds.load()
    if not rec.check(m.time_dim in ref.sizes and ref.sizes[m.time_dim] == T, "unstacked", "the processed data have dimensions %s" % dict(ref.sizes), u):
        return
    base = {"cls": cls, "options": kw, "region": sh, "height": u.get("hd", "p")}
    try:
        r = reload(m, u, path, insts["L"], rec, base)
        bad = diff(ref, r.ds)
        if bad:
            rec.check(False, "layout:" + bad[0], "after loading: " + bad[1], base)
        tc = "time" if kw.get("time_dim") == "ncol" else m.time_dim
        if tc not in ref.coords or not np.issubdtype(ref[tc].dtype, np.datetime64):
            rec.note("no datetime coordinate")
            return
        t = p24.stamps(T)
        for a, b in p24.ranges(T):
            keep = [i for i in range(T) if a <= t[i] < b]
            case = dict(base, range=(str(a), str(b)))
            rec.state((cls, str(sorted(kw.items())), u["region"], tuple(keep), u.get("hd")))
            r = reload(None, u, path, insts["L"], rec, case, time_range=(a, b))
            bad = diff(ref.isel({m.time_dim: keep or list(range(T))}), r.ds)
            if bad:
                rec.check(False, "range:" + bad[0], "with a time range: " + bad[1], case)
            rec.outcome((u["region"], tuple(keep), bad is None))
    except Broken:
        return
    rec.sample({"cls": cls, "region": u["region"]})
