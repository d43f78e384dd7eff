"""Runner: fans the units of a property out to worker processes, merges, reports, writes evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import env

EVID = os.path.join(env.VERIF, "evidence")
KNOWN = os.path.join(env.VERIF, "known_findings.json")
MAX_VIOL_PER_UNIT = 3


class Hang(BaseException):
    """The code under test did not return within the watchdog limit."""


class Watchdog:
    """with Watchdog(5): ...   raises Hang when the body does not end (non-termination detector)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def _fire(self, *a):
        raise Hang("no answer within %.1f s" % self.seconds)

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Rec:
    """What one unit covered."""

    def __init__(self, unit=None):
        self.unit = unit
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.executions = 0
        self.compared = 0
        self.violations = []
        self.nviol = 0
        self.samples = []
        self.notes = {}

    def state(self, key):
        self.states.add(h64(key))

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """n executions of the real code were compared with the reference / judged by the oracle."""
        self.executions += n

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, key, what, case, choices=None):
        """key: stable identification of the failing input/site (used by known_findings.json)."""
        self.nviol += 1
        if len(self.violations) < MAX_VIOL_PER_UNIT or all(v["key"] != key for v in self.violations):
            self.violations.append({"key": key, "what": what, "case": case, "choices": choices})

    def check(self, cond, key, what, case, choices=None):
        if not cond:
            self.violation(key, what() if callable(what) else what, case, choices)
        return bool(cond)


_PROP = None
_TIER = None


def _work(unit):
    rec = Rec(unit)
    err = None
    try:
        with env.quiet():
            _PROP.run_unit(unit, rec)
    except Hang as e:
        rec.violation("hang", "the code under test does not terminate: %s" % e, unit)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        here = [f for f in tb if f.filename.startswith(env.REPO + os.sep)]
        if here and type(e).__name__ != "Divergence":
            rec.violation("exception:%s" % type(e).__name__,
                          "the code under test raised %s: %s (%s:%d)" % (
                              type(e).__name__, e, os.path.relpath(here[-1].filename, env.REPO), here[-1].lineno),
                          unit)
        elif isinstance(e, (MemoryError, ImportError, OSError)):
            err = traceback.format_exc()
        else:
            # never reached on code the oracle can read: the results lack a field, have another shape, or are not reproducible
            rec.violation("unjudgeable:%s" % type(e).__name__,
                          "the results cannot be judged (missing, misshapen or not reproducible): %s: %s (%s:%d)" % (
                              type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno), unit)
    return rec, err


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)["findings"]


def is_known(prop_id, key):
    return any(k["property"] == prop_id and k.get("status") != "fixed" and
               (key == k["key"] or (k["key"].endswith("*") and key.startswith(k["key"][:-1]))) for k in load_known())


FAIL_FAST = False


def main(prop_id, tier, replay=None, jobs=None, only=None):
    global _PROP, _TIER
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    env.setup()
    mod = importlib.import_module("mc.props." + prop_id.lower())
    _PROP, _TIER = mod, tier
    os.makedirs(EVID, exist_ok=True)
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        rec, err = _work(rp["unit"])
        if err:
            print(err)
            return 2
        hit = [v for v in rec.violations if v["key"] == rp["key"]] or rec.violations
        for v in hit[:3]:
            print("REPRODUCED key=%s\n  %s\n  case=%s\n  choices=%s" % (v["key"], v["what"], v["case"], v["choices"]))
        print("replay: %d violation(s) in unit" % rec.nviol)
        return 1 if hit else 0
    units = list(mod.units(tier))
    if only is not None:
        units = units[only:only + 1]
    # the seed only rotates the order in which units are explored: coverage is the same for every seed
    k = seed % max(1, len(units))
    units = units[k:] + units[:k]
    recs, errs = [], []
    jobs = jobs or min(os.cpu_count() or 1, 8)
    if jobs == 1 or len(units) == 1:
        it = map(_work, units)
        pool = None
    else:
        pool = mp.get_context("fork").Pool(jobs)
        it = pool.imap_unordered(_work, units, chunksize=1)
    tot = Rec()
    nviol_units = 0
    for rec, err in it:
        if err:
            errs.append((rec.unit, err))
            if len(errs) > 2:
                break
            continue
        recs.append(rec)
        tot.states |= rec.states
        tot.outcomes |= rec.outcomes
        tot.transitions += rec.transitions
        tot.executions += rec.executions
        for a, b in rec.notes.items():
            tot.notes[a] = tot.notes.get(a, 0) + b
        tot.nviol += rec.nviol
        for v in rec.violations:
            v["unit"] = rec.unit
            tot.violations.append(v)
        tot.samples += rec.samples[:1]
        nviol_units += bool(rec.nviol)
        if nviol_units > 200 or (FAIL_FAST and any(not is_known(prop_id, v["key"]) for v in rec.violations)):
            break
    if pool:
        pool.terminate()
        pool.join()
    if errs and not tot.violations:
        for u, e in errs[:3]:
            print("HARNESS-ERROR property=%s unit=%s\n%s" % (prop_id, u, e))
        return 2
    known = [k for k in load_known() if k["property"] == prop_id and k.get("status") != "fixed"]
    new, seen_known = [], {}
    for v in tot.violations:
        for k in known:
            if v["key"] == k["key"] or (k["key"].endswith("*") and v["key"].startswith(k["key"][:-1])):
                seen_known[k["key"]] = k
                break
        else:
            new.append(v)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop_id, seen_known[k]["what"]))
    wall = time.time() - t0
    cov = {"states": len(tot.states), "transitions": tot.transitions,
           "traces_validated_against_impl": tot.executions,
           "distinct_nontrivial": len(tot.outcomes),
           "rule": getattr(mod, "RULE", "every case of the bounded space; non-trivial = distinct observed outcome"),
           "samples": sorted(tot.samples, key=repr)[:4] or ["none"], "exhaustive": not errs and len(recs) == len(units),
           "units": len(units), "counters": tot.notes, "bounds": mod.BOUNDS.get(tier, mod.BOUNDS)
           if isinstance(getattr(mod, "BOUNDS", None), dict) else getattr(mod, "BOUNDS", "")}
    ev = {"property": prop_id, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
          "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 3),
          "violations": len(new)}
    tmp = os.path.join(EVID, ".%s.tmp" % prop_id)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, prop_id + ".json"))
    print("%s %s: units=%d states=%d transitions=%d executions=%d outcomes=%d wall=%.1fs" % (
        prop_id, tier, len(units), len(tot.states), tot.transitions, tot.executions, len(tot.outcomes), wall))
    if tot.notes:
        print("  counters: " + ", ".join("%s=%d" % kv for kv in sorted(tot.notes.items())))
    if new:
        new.sort(key=lambda v: len(repr(v["case"])) + len(repr(v["choices"])))
        v = new[0]
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop_id + ".json")
        with open(path, "w") as f:
            json.dump({"property": prop_id, "tier": tier, "unit": v["unit"], "key": v["key"], "what": v["what"],
                       "case": v["case"], "choices": v["choices"],
                       "replay_cmd": "bash run.sh %s --replay %s" % (prop_id, path)}, f, indent=1, default=str)
        keys = sorted({x["key"] for x in new})
        print("  %d violation(s), kinds: %s" % (tot.nviol, ", ".join(keys)))
        print("  first: [%s] %s\n  case=%s choices=%s" % (v["key"], v["what"], v["case"], v["choices"]))
        print("VIOLATION property=%s replay=%s" % (prop_id, path))
        return 1
    if nviol_units == 0 and tot.executions == 0:
        print("HARNESS-ERROR property=%s nothing was explored" % prop_id)
        return 2
    return 0


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--fail-fast", action="store_true", help="stop at the first unit with an unlisted violation")
    a = ap.parse_args()
    FAIL_FAST = a.fail_fast
    rc = main(a.prop.upper(), a.tier, a.replay, a.jobs, a.only)
    sys.stdout.flush()
    os._exit(rc)
