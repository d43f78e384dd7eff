"""P06: the execution mode does not change the result: serial, parallel, every chunk size, every order in which the workers
run the tasks, tasks sharing memory or isolated as in a process pool."""
import numpy as np

from .. import explore, rng, scene, sched, subcol, synth
from ..scene import diff_fields, describe, out_fields, vary

BOUNDS = {
    "quick": "T=1..3 time columns, chunk in {none,1..T+1}, shared/isolated tasks, all task orders per dask graph for single stages; 40 and 260 columns with 10 chunk sizes in the submitted order; whole simulation chains T=3 "
             "with at most 1 departure from the default order",
    "thorough": "T up to 4 for single stages (all orders), whole chains with at most 2 departures",
}
RULE = "one execution = one stage (or whole chain) under one schedule; compared bit for bit with the serial result"
ASSUMPTIONS = ["random answers are fixed functions of the request, so that results of different schedules are comparable",
               "tasks are atomic (dask runs one Python task at a time per column; interference inside a task is not modelled beyond shared vs isolated memory)"]


class Const(object):
    """Random answers that do not depend on the order of the requests."""

    def __init__(self, k):
        self.k = k
        self.i = 0

    def choose(self, n, tag=""):
        if tag == "gamma":
            return 0
        return self.k % n


class Det(rng.RandomStub):
    def gamma(self, shape, scale=1.0, size=None):
        out = np.asarray(shape, dtype=float) * np.asarray(scale, dtype=float) * np.ones(size if size is not None else np.shape(shape))
        return out * (0.3 + 0.45 * np.arange(out.size).reshape(out.shape)) if out.ndim else float(out)


STAGES = ("strat", "precip_strat", "precip_conv", "qn", "radar_cl", "radar_pi", "lidar_cl", "lidar_pl")
CHAINS = ("chain_radar_micro", "chain_lidar_micro", "chain_radar_rad")


def units(tier):
    u = []
    for T in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for s in STAGES:
            for iso in (False, True):
                u.append({"stage": s, "T": T, "iso": iso, "bound": None, "chunks": [None] + list(range(1, T + 2))})
    for s in STAGES:
        u.append({"stage": s, "T": 40, "iso": True, "bound": 0, "chunks": [None, 7, 39, 40, 41]})
        u.append({"stage": s, "T": 260, "iso": False, "bound": 0, "chunks": [100, 128, 255, 256, 260] if tier == "quick" else [None, 1, 13, 52, 100, 127, 128, 130, 255, 256, 257, 259, 260, 300]})
    for s in CHAINS:
        for iso in (False, True):
            for ch in ([None], [1], [2]):
                u.append({"stage": s, "T": 3, "iso": iso, "bound": 1 if tier == "quick" else 2, "chunks": ch})
    return u


N = 3


def base(stage, T):
    H = 4
    rs = np.arange(T * H).reshape(T, H)
    if stage.startswith(("radar", "lidar")):
        mk = {h: ((np.arange(N)[:, None, None] + rs + i) % 2 == 0) for i, h in enumerate(synth.HYD)}
        for h in mk:
            mk[h][:, :, -1] = False
        return scene.scene(T, H, N, mk, qscale={h: vary(T, H, N, i) for i, h in enumerate(synth.HYD)},
                           nscale={h: vary(T, H, N, i + 7) for i, h in enumerate(synth.HYD)})
    conv = stage != "strat" or T % 2 == 0
    m = subcol.column_model(H, T=T, process_conv=conv)
    for i, h in enumerate(synth.HYD):
        f = ((rs * (i + 2) + i) % (N + 1)) / N
        f[:, -1] = 0
        subcol.set_fracs(m, {h: np.minimum(f, 2. / N)}, "strat")
        g = ((rs + i) % 2) / N
        g[:, -1] = 0
        subcol.set_fracs(m, {h: g}, "conv")
        subcol.set_field(m, "qs_" + h, scene.QREF[h] * (1 + rs * .13))
        subcol.set_field(m, "qc_" + h, scene.QREF[h] * (1 + rs * .17))
        subcol.set_field(m, "N_" + h, scene.NREF[h] * (1 + rs * .07))
    if stage.startswith("chain"):
        return m
    m.ds["subcolumn"] = ("subcolumn", np.arange(N))
    from emc2.simulator.subcolumn import set_convective_sub_col_frac
    for h in ("cl", "ci"):
        set_convective_sub_col_frac(m, h, N_columns=N)
    if stage != "strat":
        mk = ((np.arange(N)[:, None, None] + rs) % 3 != 0)
        for k in ("strat_frac_subcolumns_cl", "strat_frac_subcolumns_ci"):
            m.ds[k] = (("subcolumn", "time", "height"), mk.copy())
            mk = ~mk
    return m


_INST = {}


def inst(kind):
    if kind not in _INST:
        _INST[kind] = synth.make_instrument(kind)
    return _INST[kind]


def run_stage(stage, m, **par):
    import emc2.simulator as sim
    from emc2.simulator import subcolumn as sc
    if stage == "strat":
        sc.set_stratiform_sub_col_frac(m, N_columns=N, **par)
    elif stage.startswith("precip"):
        sc.set_precip_sub_col_frac(m, is_conv=stage.endswith("conv"), **par)
    elif stage == "qn":
        sc.set_q_n(m, "cl", is_conv=False, qc_flag=True, inv_rel_var=1.5, use_rad_logic=False, **par)
    elif stage.startswith("radar"):
        sim.radar_moments.calc_radar_moments(inst("radar"), m, False, hyd_types=[stage[6:]], use_rad_logic=False, mie_for_ice=True, **par)
    elif stage.startswith("lidar"):
        sim.lidar_moments.calc_lidar_moments(inst("lidar"), m, False, hyd_types=[stage[6:]], use_rad_logic=False, mie_for_ice=True, **par)
    else:
        _, kind, logic = stage.split("_")
        sim.main.make_simulated_data(m, inst(kind), N, use_rad_logic=(logic == "rad"), **par)
    return out_fields(m)


def run_unit(u, rec):
    T, stage = u["T"], u["stage"]
    tmpl = base(stage, T)

    def once(**par):
        m = subcol.clone(tmpl)
        m.ds = m.ds.copy(deep=True)
        m.interpobj = {}
        with rng.controlled(Det(Const(1), perms="all")):
            return run_stage(stage, m, **par)
    ref = once(parallel=False)
    ref2 = once(parallel=False)
    rec.check(not diff_fields(ref, ref2), "serial-repeat", "two identical serial runs differ in %s" % diff_fields(ref, ref2)[:3], u)
    for chunk in u["chunks"]:
        def body(ctx):
            s = sched.Sched(ctx, u["iso"])
            with sched.controlled(s):
                r = once(parallel=True, chunk=chunk)
            return r, s.tasks, s.graphs
        n = 0
        for ctx, (res, tasks, graphs) in explore.explore(body, bound=u["bound"], max_exec=20000):
            n += 1
            rec.trace()
            rec.step(tasks)
            rec.note("dask_graphs", graphs)
            rec.state((stage, T, u["iso"], chunk, tuple(ctx.choices)))
            bad = diff_fields(ref, res)
            rec.outcome((stage, T, chunk, bool(bad)))
            if bad:
                rec.violation("mode:%s" % stage, "%s with chunk=%s, %s tasks differs from the serial run: %s" % (
                    stage, chunk, "isolated" if u["iso"] else "shared", describe(ref, res, bad[0])),
                    {"stage": stage, "T": T, "chunk": chunk, "isolated": u["iso"], "fields": bad[:6]}, ctx.choices)
        if n < 2 and T > 1 and chunk is None:
            rec.note("stages_without_parallelism")
    rec.sample({"stage": stage, "T": T, "chunks": u["chunks"], "isolated": u["iso"], "fields compared": len(ref)})
