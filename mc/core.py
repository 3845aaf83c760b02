"""Driver shared by every check: exhaustive enumeration of a task list over worker
processes, with deterministic order, evidence, replay files and exit codes.

Exit codes: 0 the property held on everything explored; 1 a violation, reported as
"VIOLATION property=<id> replay=<path>".  The implementation failing to import, raising
where the property promises an answer, or not terminating, are violations too.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TASK_LIMIT = 420  # s; a task takes seconds: only non-termination reaches this
NPROC = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    """the property is broken: `case` is enough to replay it"""

    def __init__(self, case, msg):
        super().__init__(msg)
        self.case = case
        self.msg = msg


class _Timeout(BaseException):
    pass


class Ctx:
    """counters of one task, merged by the parent"""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.counts = {}
        self.outcomes = set()
        self.samples = []
        self.case = None
        self.maxerr = {}

    def at(self, case):
        """remember the case under exploration (for crashes and time-outs)"""
        self.case = case

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def outcome(self, *vals):
        """remember a distinct observed outcome (hashed)"""
        self.outcomes.add(hashlib.md5(repr(vals).encode()).digest()[:8])

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def err(self, key, value):
        if value > self.maxerr.get(key, 0.0):
            self.maxerr[key] = float(value)

    def fail(self, msg, case=None):
        raise Violation(self.case if case is None else case, msg)

    def require(self, cond, msg, case=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, case)


def _alarm(signum, frame):
    raise _Timeout()


_MOD = None


def _init(modname, init_worker):
    global _MOD
    import importlib

    _MOD = importlib.import_module(modname)
    signal.signal(signal.SIGALRM, _alarm)
    if init_worker and hasattr(_MOD, "init_worker"):
        try:
            _MOD.init_worker()
        except BaseException:  # reported by the first task
            _MOD._init_error = traceback.format_exc()


def _work(item):
    idx, task = item
    ctx = Ctx()
    ctx.case = {"task": task}
    fail = None
    signal.setitimer(signal.ITIMER_REAL, TASK_LIMIT)
    try:
        if getattr(_MOD, "_init_error", None):
            fail = ({"init": True}, "the package cannot be loaded:\n" + _MOD._init_error)
        else:
            _MOD.run_task(task, ctx)
    except Violation as v:
        fail = (v.case, v.msg)
    except _Timeout:
        fail = (ctx.case, f"no answer within {TASK_LIMIT} s")
    except Exception as e:
        # an exception that the harness did not expect at this point
        fail = (ctx.case, "unexpected exception:\n" + traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return idx, ctx, fail


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def write_replay(prop, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": prop, "message": msg, "case": jsonable(case)}, indent=1)
    p = os.path.join(d, f"{prop}_{hashlib.md5(body.encode()).hexdigest()[:10]}.json")
    with open(p, "w") as f:
        f.write(body + "\n")
    return p


def known_findings(prop):
    """[(key, text)] listed for this property; 'fixed:' lines suppress nothing"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                body = line[len("known: "):]
                fields = dict(w.split("=", 1) for w in body.split() if "=" in w)
                if fields.get("property") == prop:
                    out.append((fields.get("key"), body))
    return out


def _explore(mod, tasks):
    """yield (index, ctx, failure) of every task, in the order they end; a worker that dies
    (the implementation crashed the interpreter) is a failure of the task it was running"""
    if not tasks:
        return
    import concurrent.futures as cf
    from concurrent.futures.process import BrokenProcessPool

    ctxm = mp.get_context("fork")
    ex = cf.ProcessPoolExecutor(min(NPROC, len(tasks)), ctxm, _init, (mod.__name__, True))
    todo = iter(enumerate(tasks))
    live = {}
    clean = False
    try:
        while True:
            while len(live) < NPROC + 2:
                it = next(todo, None)
                if it is None:
                    break
                live[ex.submit(_work, it)] = it
            if not live:
                clean = True
                return
            got, _ = cf.wait(live, return_when=cf.FIRST_COMPLETED)
            for f in got:
                item = live.pop(f)
                yield f.result()
    except BrokenProcessPool:
        # find the culprit: run what was in flight one by one
        for it in [item] + list(live.values()):
            p = ctxm.Process(target=_alone, args=(mod.__name__, it))
            p.start()
            p.join(TASK_LIMIT)
            if p.exitcode != 0:
                if p.is_alive():
                    p.kill()
                yield it[0], None, ({"task": it[1]}, f"the interpreter crashed (exit code {p.exitcode})")
                return
        yield -1, None, ({"crash": True}, "a worker process died")
    finally:
        if not clean:
            for p in list((getattr(ex, "_processes", None) or {}).values()):
                p.terminate()
        ex.shutdown(wait=True, cancel_futures=True)


def _alone(modname, item):
    _init(modname, True)
    _work(item)


def run_check(mod, tier):
    """explore every task of module `mod`; returns the exit code"""
    prop = mod.ID
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tot = Ctx()
    fails = []
    try:
        if hasattr(mod, "setup"):
            mod.setup()
        tasks = list(mod.tasks(tier))
    except Violation as v:
        fails.append((v.case, v.msg))
        tasks = []
    except Exception:
        fails.append(({"setup": True}, "the package cannot be loaded:\n" + traceback.format_exc()))
        tasks = []
    ntasks = len(tasks)
    done = 0
    for idx, ctx, fail in _explore(mod, tasks):
        done += 1
        if ctx is not None:
            tot.states += ctx.states
            tot.transitions += ctx.transitions
            tot.traces += ctx.traces
            tot.outcomes |= ctx.outcomes
            for k, v in ctx.counts.items():
                tot.counts[k] = tot.counts.get(k, 0) + v
            for k, v in ctx.maxerr.items():
                tot.err(k, v)
            if idx < 3 or idx == ntasks // 2 or idx == ntasks - 1:
                tot.samples += [(idx, s) for s in ctx.samples]
        if fail:
            fails.append(fail)
            break
    wall = time.time() - t0
    tot.samples = [s for _, s in sorted(tot.samples, key=lambda x: x[0])][:6]
    cov = {
        "states": tot.states,
        "transitions": tot.transitions,
        "traces_validated_against_impl": tot.traces,
        "tasks": ntasks,
        "tasks_completed": done,
        "distinct_outcomes": len(tot.outcomes),
        "exhaustive": bool(ntasks and done == ntasks and not fails),
        "samples": jsonable(tot.samples) or [{"note": "no case completed"}],
        "counts": tot.counts,
        "max_error_over_tolerance": tot.maxerr,
        "bounds": mod.BOUNDS[tier],
    }
    if mod.LEVEL == "fault_enumeration":
        del cov["states"]
        cov["evaluations"] = tot.states
        cov["distinct_nontrivial"] = len(tot.outcomes)
        cov["rule"] = mod.RULE
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(wall, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for key, text in known_findings(prop):
        print("KNOWN-FINDING: " + text)
    if fails:
        case, msg = fails[0]
        path = write_replay(prop, case, msg)
        print(f"{prop}: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(
        f"{prop}: held on {tot.states} states, {tot.transitions} transitions,"
        f" {tot.traces} traces, {len(tot.outcomes)} distinct outcomes ({ntasks} tasks, {wall:.1f} s)"
        f" counts={tot.counts} err/tol={ {k: float('%.2g' % v) for k, v in tot.maxerr.items()} }"
    )
    return 0


def replay(mod, path):
    """replay one recorded case, without the explorer; exit code 1 if it still fails"""
    case = json.load(open(path))["case"]
    if hasattr(mod, "setup"):
        mod.setup()
    if hasattr(mod, "init_worker"):
        mod.init_worker()
    ctx = Ctx()
    ctx.case = case
    try:
        if "task" in case and len(case) == 1:
            mod.run_task(_tuplify(case["task"]), ctx)
        else:
            mod.run_case(case, ctx)
    except Violation as v:
        print(v.msg)
        return 1
    except Exception:
        traceback.print_exc()
        return 1
    print("replay: the property holds on this case")
    return 0


def _tuplify(x):
    return tuple(_tuplify(v) for v in x) if isinstance(x, list) else x
