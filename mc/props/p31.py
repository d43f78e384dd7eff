"""P31: a simulation depends on the physical state it is given, not on how that state is represented (units, precision, memory, laziness, coordinates, companions)."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import chain, env
from ..scene import canon, describe, diff_fields
from . import p07, p08, p19, p22

BOUNDS = {
    "quick": "units {hPa, Pa, kPa, millibar} of pressure x {K, kelvin, degC, celsius} x {m, meters, km} x 10 storages (byte order, memory order, strides, read-only, lazy whole, lazy in blocks, single precision in both byte "
             "orders, mixed precision) x 9 companions (datetime time, fields as coordinates, height values, unrelated variables, no / more attributes, renamed axes, encoding) x 3 argument "
             "types: every choice alone and all storages x companions with Pa, degC and km (in four modes also every storage and companion x every unit, and all units); radar and lidar x radiation/microphysics/empirical logic x ModelE with and without convection, CESM, P3, 3 and 1 subcolumns",
    "thorough": "as quick with every combination of {hPa, Pa} x {K, degC} x {m, km} x storage x companion x argument type",
}
RULE = "one execution = one simulation of one representation of the same physical state; every output field is compared with that of the plain representation (float64, native, in memory)"
ASSUMPTIONS = ["random answers are fixed functions of the request", "single precision inputs hold exactly the values of the plain representation; their results may differ by rounding",
               "the unit symbol 'mb' is renamed by the loaders and not judged here"]
SEQ = ["mixed", "conv", "warm", "over"]
MET = {"p": ("p_field", {"hPa": 1., "Pa": 100., "kPa": .1, "millibar": 1.}), "T": ("T_field", {"K": 0., "kelvin": 0., "degC": -273.15, "celsius": -273.15}), "z": ("z_field", {"m": 1., "meters": 1., "km": 1e-3})}
FLOAT = ("f4", ">f4", "mixed")


def floats(m):
    return [k for k, v in m.ds.variables.items() if v.dtype.kind == "f" and k not in m.ds.dims]


def each(f):
    def g(m):
        for i, k in enumerate(floats(m)):
            v = m.ds[k]
            m.ds[k] = (v.dims, f(v.values, i), v.attrs)
    return g


def frozen(a, i):
    a = a.copy()
    a.setflags(write=False)
    return a


def lazy(m, **blocks):
    m.ds = m.ds.chunk(blocks) if blocks else m.ds.chunk()


STORE = {
    "plain": lambda m: None,
    ">f8": each(lambda a, i: a.astype(">f8")),
    "fortran": each(lambda a, i: np.asfortranarray(a) if a.ndim else a),
    "strided": each(lambda a, i: np.repeat(a, 2, axis=0)[::2] if a.ndim else a),
    "reversed": each(lambda a, i: a[::-1].copy()[::-1] if a.ndim else a),
    "frozen": each(frozen),
    "lazy": lazy,
    "blocks": lambda m: lazy(m, **{m.time_dim: 1, m.height_dim: 2}),
    "f4": each(lambda a, i: a.astype("f4")),
    ">f4": each(lambda a, i: a.astype(">f4")),
    "mixed": each(lambda a, i: a.astype("f4") if i % 2 else a),
}


def datetime(m):
    n = m.ds.sizes[m.time_dim]
    m.ds = m.ds.assign_coords({m.time_dim: (m.time_dim, np.datetime64("2020-01-01", "ns") + np.arange(n) * np.timedelta64(3600, "s"))})


def companions(m):
    s = m.ds.sizes
    m.ds = m.ds.assign(foo=(("lonx",), np.arange(4.)), tsurf=((m.time_dim,), np.arange(s[m.time_dim]) * 1.), cloud=((m.time_dim, m.height_dim), np.full((s[m.time_dim], s[m.height_dim]), np.nan)),
                       bounds=((m.time_dim, "nv"), np.zeros((s[m.time_dim], 2))), name=((), "a model"), flag=((m.time_dim,), np.arange(s[m.time_dim]) % 2 == 0))


def bare(m):
    keep = {getattr(m, f) for f, _ in MET.values()} | {"rho_a"}
    for k, v in m.ds.variables.items():
        if k not in keep:
            v.attrs.clear()
    m.ds.attrs.clear()


def wordy(m):
    for k, v in m.ds.variables.items():
        v.attrs.update(long_name="x", _FillValue=-9999., valid_range=[0., 1.], foo=3)
    m.ds.attrs.update(title="x", Conventions="CF-1.8")


def levels(m):
    m.ds = m.ds.assign_coords({m.height_dim: (m.height_dim, np.arange(m.ds.sizes[m.height_dim])[::-1] * 100. + 7.)})


def axes(m):
    m.ds = m.ds.rename({m.time_dim: "t_axis", m.height_dim: "k_axis"})
    m.time_dim, m.height_dim = "t_axis", "k_axis"


def packed(m):
    for k in floats(m):
        m.ds[k].encoding.update(dtype="int16", scale_factor=.1, add_offset=3., _FillValue=-32768, zlib=True)


COMP = {"none": lambda m: None, "datetime": datetime, "coordinates": lambda m: setattr(m, "ds", m.ds.set_coords([m.p_field, m.z_field, m.T_field])), "levels": levels,
        "companions": companions, "bare": bare, "wordy": wordy, "axes": axes, "encoding": packed}
ARGS = {"int": int, "int64": np.int64, "int32": np.int32}


def points(tier, full=True):
    dim = {"p": list(MET["p"][1]), "T": list(MET["T"][1]), "z": list(MET["z"][1]), "store": list(STORE), "comp": list(COMP), "args": list(ARGS)}
    base = {n: v[0] for n, v in dim.items()}
    out = [dict(base, **{n: x}) for n, v in dim.items() for x in v]
    out += [{"p": "Pa", "T": "degC", "z": "km", "store": s, "comp": c, "args": "int64"} for s, c in itertools.product(dim["store"], dim["comp"])]
    if full or tier != "quick":
        for a in ("store", "comp"):
            out += [dict(base, **{a: y, n: x}) for y in dim[a] for n in ("p", "T", "z", "args") for x in dim[n]]
        out += [dict(base, p=p, T=T, z=z) for p, T, z in itertools.product(dim["p"], dim["T"], dim["z"])]
    if tier != "quick":
        out += [dict(zip(dim, v)) for v in itertools.product(("hPa", "Pa"), ("K", "degC"), ("m", "km"), dim["store"], dim["comp"], dim["args"])]
    seen = []
    for p in out:
        if p not in seen and p != base:
            seen.append(p)
    return base, seen


MODES = [("ModelE", True, "radar", "rad", 3), ("ModelE", True, "radar", "micro", 3), ("ModelE", True, "lidar", "rad", 3), ("ModelE", True, "lidar", "micro", 3),
         ("ModelE", False, "radar", "emp", 3), ("ModelE", True, "lidar", "emp", 3), ("ModelE", False, "radar", "rad", 1), ("ModelE", False, "lidar", "micro", 1),
         ("CESM", False, "radar", "rad", 3), ("CESM", False, "lidar", "rad", 3),
         ("P3", False, "radar", "rad", 3), ("P3", False, "radar", "micro", 3), ("P3", False, "lidar", "rad", 3), ("P3", False, "lidar", "micro", 3)]

FULL = (("ModelE", True, "radar", "rad"), ("ModelE", True, "lidar", "micro"), ("P3", False, "radar", "micro"), ("CESM", False, "lidar", "rad"))


def units(tier):
    n = 3 if tier == "quick" else 24
    return [{"tier": tier, "fam": f, "conv": c, "kind": k, "logic": lo, "N": N, "part": [i, n]} for f, c, k, lo, N in MODES for i in range(n)]


class Scene:
    """The plain representation: every number of the state is exactly representable in single precision."""

    def __init__(self, u, d):
        self.u = u
        if u["fam"] == "P3":
            import emc2
            path = os.path.join(d, "p3.nc")
            cells = [c for i, c in enumerate(p22.lattice("quick")) if i % 97 == 3]
            p22.write_file(path, cells, 9)
            with env.quiet():
                self.m = emc2.core.model.E3SMv3(path, instrument=p19.instrument("KAZR" if u["kind"] == "radar" else "HSRL"))
            self.m.ds = self.m.ds.load()
            self.inst = p19.instrument("KAZR" if u["kind"] == "radar" else "HSRL")
        else:
            self.m = p08.clone(p07.build(SEQ, u["conv"], u["fam"]))
            self.inst = chain.inst(u["kind"])
        for h in self.m.hyd_types:
            # a trace below the threshold: nothing to simulate, but the model's own value
            q = self.m.ds[self.m.q_names_stratiform[h]]
            a = q.values.copy()
            a[(a == 0) & (np.arange(a.size).reshape(a.shape) % 2 == 0)] = 1e-21
            self.m.ds[self.m.q_names_stratiform[h]] = (q.dims, a, q.attrs)
        for k in floats(self.m):
            v = self.m.ds[k]
            self.m.ds[k] = (v.dims, v.values.astype("f4").astype("f8"), v.attrs)

    def model(self, p):
        m = p08.clone(self.m)
        for n, (f, conv) in MET.items():
            k = getattr(m, f)
            if p[n] != list(conv)[0]:
                v = m.ds[k]
                a = v.values + conv[p[n]] if n == "T" else v.values * conv[p[n]]
                if p["store"] in FLOAT:
                    a = a.astype("f4").astype("f8")
                m.ds[k] = (v.dims, a, dict(v.attrs, units=p[n]))
        STORE[p["store"]](m)
        COMP[p["comp"]](m)
        return m

    def run(self, p):
        m = self.model(p)
        given = {k: (np.array(v.values), v.attrs.get("units")) for k, v in m.ds.variables.items()}
        old = set(m.ds.variables)
        m = chain.simulate(m, self.u["kind"], self.u["logic"], ARGS[p["args"]](self.u["N"]), instrument=self.inst, do_classify=True)
        out = {str(k): canon(m, m.ds[k]) for k in m.ds.data_vars if k not in old and m.ds[k].dtype.kind in "fiub"}
        changed = [k for k, (a, un) in given.items() if k in m.ds.variables and k not in WORK and not (
            m.ds[k].shape == a.shape and np.array_equal(m.ds[k].values, a, equal_nan=a.dtype.kind == "f") and m.ds[k].attrs.get("units") == un)]
        return out, changed + [k for k in given if k not in m.ds.variables]


WORK = ("mu", "lambda", "N_0")


def run_unit(u, rec):
    i, n = u["part"]
    d = tempfile.mkdtemp(prefix="emc2_p31_")
    try:
        sc = Scene(u, d)
        base, pts = points(u["tier"], (u["fam"], u["conv"], u["kind"], u["logic"]) in FULL)
        want, changed = sc.run(base)
        site = "%s:%s:%s" % (u["kind"], u["logic"], u["fam"])
        rec.check(not changed, "input:" + site, lambda: "the simulation changes its input %s" % changed[:3], {"unit": u})
        rec.check(len(want) >= 8 and any(np.isfinite(v).any() and np.nanmax(np.abs(v)) > 0 for k, v in want.items() if "_tot" in k), "empty:" + site,
                  lambda: "the plain simulation holds no signal", {"unit": u})
        for p in pts[i::n]:
            case = {"unit": u, "representation": p}
            rec.trace()
            rec.state((u["fam"], u["conv"], u["kind"], u["logic"], u["N"], tuple(sorted(p.items()))))
            what = "/".join(v for k, v in p.items() if v != base[k])
            tag = max((k for k in p if p[k] != base[k]), key=lambda k: ("args", "p", "T", "z", "comp", "store").index(k))
            try:
                got, changed = sc.run(p)
            except Exception as e:
                rec.violation("refused:%s:%s" % (p[tag], u["kind"]), "a simulation of the state represented as %s fails: %r" % (what, e), case)
                continue
            tol = 5e-3 if p["store"] in FLOAT else 1e-9
            bad = diff_fields(want, got, tol, 1e-300)
            rec.step(len(want))
            rec.outcome((tag, p[tag], u["kind"], u["logic"], bool(bad)))
            rec.check(not bad, "value:%s:%s:%s" % (p[tag], u["kind"], u["logic"]),
                      lambda: "the same state represented as %s gives another result: %s" % (what, describe(want, got, bad[0])), case)
            rec.check(not changed, "changed:%s:%s" % (p[tag], u["kind"]), lambda: "represented as %s, the simulation changes its input %s" % (what, changed[:3]), case)
        rec.sample({"representations": len(pts[i::n]), "fields": len(want), "mode": site})
    finally:
        shutil.rmtree(d, ignore_errors=True)
