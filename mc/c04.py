"""C04: a result never depends on what was computed before -- other points, other
parameters, other bodies, failed or interrupted computations."""
import contextlib
import copy
import io
import os
import pickle
import sys
import threading
from itertools import product

import numpy as np

import geom
from geom import GC, RHO
from twins import TWINS

ID = "C04"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every sequence of 3 operations (30-letter alphabet: three bodies, near-identical / interior / surface /"
    " in-line / reused-array observation points, gradient on/off, three densities and constants, overwritten"
    " results, overwritten point arrays, failing calls, direct face calls), from fresh bodies; every window of 3"
    " operations in one long history on the same bodies; one interruption at every executed line of a"
    " computation x 4 follow-up computations; every sequence of 3 bodies built one after the other (in the same array or not,"
    " keeping the previous ones or not) x gradient; 5000 distinct points seen by one body, twice; every pair of 21 points with the same hash, sum, norm or rounding; every pair of computations with the body printed, copied or pickled in between; computations of two bodies in two threads: every schedule of one"
    " switch, and of two switches at the first execution of every source line of both"
    " (every fourth of those for two further pairs)",
    "thorough": "as quick with sequences of 4 operations (every window of 4 in the long history), interruptions on"
    " three bodies with all follow-ups and pairs of successive interruptions; schedules of two"
    " switches at the first three executions of every source line",
}
ASSUMPTIONS = [
    "one thread per body: computations of one body in two threads are not claimed; threads switch"
    " at Python source lines of the package (compiled kernels are atomic)",
    "interruption points are Python source lines of the package (compiled kernels are atomic)",
]

TETRA = [(0.0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2)]
PYR = [(0.0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (1, 1, 2)]
ECEF = np.array([4198944.0, 174747.0, 4781887.0])
BODIES = {
    "A": np.array(TETRA),
    "B": np.array(TETRA) + np.array([3.0, 0, 0]),
    "M": 1.0 - np.array(TETRA),  # mirror image of A: same box-size, faces, sum of coordinates
    "P": np.array(PYR),
    "E": np.array(TETRA) * 5 + ECEF,
}
OBS = {
    "o1": (3.0, 1.0, 2.0),
    "o2": (3.0, 1.0, 2.0 + 1e-7),
    "in": (0.25, 0.5, 0.25),
    "sf": (0.5, 0.5, 0.0),
    "np": (0.5, 0.5, 1e-9),
    "nm": (0.5, 0.5, -1e-9),
    "vx": (0.0, 0.0, 0.0),
    "ln": (4.0, 0.0, 0.0),
    "e1": tuple(ECEF + np.array([20.0, 3.0, 4.0])),
    "e2": tuple(ECEF + np.array([20.0, 3.0, 4.0 + 1e-3])),
}
PAR = {"r": (RHO, GC), "s": (1000.0, GC), "t": (RHO, 1.0), "n": (-500.0, 6.0e-11), "z": (0.0, GC)}

# (operation, body, obs, parameters, gradient)
CALLS = [
    ("call", "A", "o1", "r", False),
    ("call", "A", "o1", "r", True),
    ("call", "A", "o2", "r", False),
    ("call", "A", "o2", "r", True),
    ("call", "A", "o1", "s", False),
    ("call", "A", "o1", "t", True),
    ("call", "A", "in", "r", True),
    ("call", "A", "sf", "n", False),
    ("call", "A", "vx", "r", False),
    ("call", "A", "ln", "r", True),
    ("call", "A", "in", "z", False),
    ("call", "A", "np", "r", True),
    ("call", "A", "nm", "r", True),
    ("call", "B", "o1", "r", False),
    ("call", "B", "o1", "r", True),
    ("call", "B", "in", "r", False),
    ("call", "M", "o1", "r", True),
    ("call", "M", "in", "r", False),
    ("shared", "A", "o1", "r", True),
    ("shared", "A", "in", "r", True),
    ("shared", "B", "o2", "r", False),
    ("station", "A", "o1", "r", True),
    ("station", "B", "in", "s", False),
]
OTHER = [
    ("reset", "A"),
    ("badshape", "A"),
    ("badparam", "A"),
    ("face", "A", "in"),
    ("scribble", "A"),
    ("clobber",),
    ("badlist", "A"),
]
ECALLS = [("call", "E", "e1", "r", g) for g in (False, True)] + [("call", "E", "e2", "r", g) for g in (False, True)] + [
    ("shared", "E", "e1", "r", True),
    ("shared", "E", "e2", "r", True),
]

_fresh = {}
_want = {}


def setup():
    global _fresh
    geec = geom.load()
    for k, v in BODIES.items():
        _fresh[k] = (v,)
    allcalls = CALLS + ECALLS + [
        ("call", b, o, "r", g) for b in "ABM" for o in ("o1", "in") for g in (False, True)
    ] + [
        ("call", b, o, p, g) for b in "AP" for o in ("o1", "in") for p in "rs" for g in (False, True)
    ]
    # compile the kernels with an unrelated body, then compute every expected result in a process
    # of its own, in which nothing was computed before
    with np.errstate(all="ignore"):
        for g in (False, True):
            geom.Polyhedron(np.array(PYR) * 3.0 + 40.0).get_gravity(np.array([77.0, 5.0, 6.0]), 123.0, 2.0, g)
    allcalls += [("call",) + k for pair in PAIRS for k in pair]
    keys = sorted({c[1:] for c in allcalls} - set(_want))
    for i in range(0, len(keys), 8):
        batch = [(k, *_isolated(k)) for k in keys[i : i + 8]]
        for k, pid, r in batch:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                raise RuntimeError(f"no result for {k}")
            _want[k] = pickle.loads(data)


def _isolated(key):
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    try:
        os.close(r)
        rho, gc = PAR[key[2]]
        with np.errstate(all="ignore"):
            p = geom.Polyhedron(BODIES[key[0]].copy())
            g, t = p.get_gravity(np.array(OBS[key[1]]), rho, gc, key[3])
        with os.fdopen(w, "wb") as f:
            f.write(pickle.dumps((np.array(g), np.array(t))))
    finally:
        os._exit(0)


class World:
    """the live objects of one history"""

    def __init__(self, names=("A", "B", "M")):
        self.arr = {k: BODIES[k].copy() for k in names}
        self.poly = {k: geom.Polyhedron(self.arr[k]) for k in names}
        self.buf = np.zeros(3)  # one observation array reused for several points
        self.last = None
        self.kept = []  # every array handed out so far, with a copy of its content


def scale(name):
    return float(np.max(np.ptp(BODIES[name], axis=0)))


def same(got, key):
    g, t = got
    wg, wt = _want[key]
    rho, gc = PAR[key[2]]
    k = abs(rho * gc) * scale(key[0])
    g, t = np.asarray(g, float), np.asarray(t, float)
    if g.shape != (3,) or t.shape != (3, 3):
        return False
    # meaningless tensor on the boundary of the body: only compare what is defined
    okg = np.max(np.abs(g - wg)) <= 1e-11 * k * 1e5
    okt = np.max(np.abs(t - wt)) <= 1e-11 * k * 1e9 or key[1] in ("sf", "vx") and key[3]
    return bool(okg and okt)


def step(w, op, ctx, hist):
    ctx.transitions += 1
    kind = op[0]
    if kind in ("call", "shared", "station"):
        name, oname, par, grad = key = op[1:]
        rho, gc = PAR[par]
        if kind == "shared":
            o = w.buf
            o[:] = OBS[oname]
        else:
            o = np.array(OBS[oname])
        ref = np.array(OBS[oname])
        if kind == "station":
            import geec.station

            s = geec.station.Station(o)
            s.compute_gravity(w.poly[name], rho, gc, grad)
            got = (s.G, s.T)
        else:
            got = w.poly[name].get_gravity(o, rho, gc, grad)
        if not np.array_equal(o, ref):
            ctx.fail(f"the observation array was changed by {op}", {"history": hist})
        if not same(got, key):
            ctx.fail(
                f"after {list(hist[:-1])}, {op} gives\n{got}\na fresh body gives\n{_want[key]}",
                {"history": hist},
            )
        w.last = got
        w.kept.append((got[0], np.array(got[0]), hist))
        w.kept.append((got[1], np.array(got[1]), hist))
        if len(w.kept) > 8:
            del w.kept[:2]
        return
    if kind == "clobber":
        # the caller owns the arrays it was given
        w.kept.clear()
        if w.last is not None:
            for a in w.last:
                try:
                    a[...] = 7.25
                except Exception:
                    pass
        return
    p = w.poly[op[1]]
    try:
        if kind == "reset":
            p.reset(np.array([9.0, 9.0, 9.0]))
        elif kind == "badshape":
            p.get_gravity(np.array([1.0, 2.0]), RHO, GC, True)
        elif kind == "badparam":
            p.get_gravity(np.array([1.0, 2.0, 3.0]), "dense", GC, True)
        elif kind == "face":
            p.faces[1].get_gravity(np.array(OBS[op[2]]), RHO, GC, True)
        elif kind == "show":
            import geec.station

            s = geec.station.Station(np.array([5.0, 4.0, 3.0]))
            with contextlib.redirect_stdout(io.StringIO()):
                for x in (p, s, p.faces[0], p.faces[-1].edges[0]):
                    str(x)
        elif kind == "copy":
            w.poly[op[1]] = copy.deepcopy(p)
        elif kind == "pickle":
            w.poly[op[1]] = pickle.loads(pickle.dumps(p))
        elif kind == "spare":  # a copy is computed with, the original goes on
            for q in (copy.deepcopy(p), copy.copy(p)):
                q.get_gravity(np.array([9.0, 8.0, 7.5]), 7.0, 3.0, True)
        elif kind == "scribble":
            w.arr[op[1]][...] += 17.0
        elif kind == "badlist":
            import geec.station

            geec.station.Station(np.array([1.0, 1.0, 1.0])).compute_gravity([p, "no body"], RHO, GC)
    except Exception:
        ctx.count("failed_calls")


def check_kept(w, ctx, hist):
    for a, c, h in w.kept:
        if not np.array_equal(np.asarray(a), c, equal_nan=True):
            ctx.fail(f"a result handed out after {list(h)} was changed later by {list(hist)}", {"history": hist})


def play(hist, ctx, world=None):
    w = world or World(sorted({o[1] for o in hist if len(o) > 1}) or ("A",))
    with np.errstate(all="ignore"):
        for i, op in enumerate(hist):
            ctx.at({"history": hist[: i + 1]})
            step(w, op, ctx, hist[: i + 1])
        check_kept(w, ctx, hist)


# --- interruptions --------------------------------------------------------------
class Stop(BaseException):
    pass


def count_lines(fn):
    n = 0

    def tracer(frame, event, arg):
        nonlocal n
        f = frame.f_code.co_filename
        if "/geec/" not in f:
            return None
        if event == "line":
            n += 1
        return tracer

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        fn()
    finally:
        sys.settrace(old)
    return n


def interrupt(fn, at):
    """run fn, raising Stop just before its `at`-th executed line of the package"""
    n = 0

    def tracer(frame, event, arg):
        nonlocal n
        if "/geec/" not in frame.f_code.co_filename:
            return None
        if event == "line":
            n += 1
            if n == at:
                raise Stop()
        return tracer

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        fn()
        return False
    except Stop:
        return True
    finally:
        sys.settrace(old)


FOLLOW = [("o1", "r", False), ("o1", "r", True), ("in", "s", False), ("in", "r", True)]


def crash_task(name, oname, grad, lo, hi, ctx, pairs=False):
    p = _copy((name,)).poly[name]
    rho, gc = PAR["r"]

    def first():
        with np.errstate(all="ignore"):
            p.get_gravity(np.array(OBS[oname]), rho, gc, grad)

    total = count_lines(first)
    for at in range(lo, min(hi, total) + 1):
        for fo in FOLLOW:
            case = {"crash": [name, oname, grad, at], "follow": fo}
            ctx.at(case)
            p = _copy((name,)).poly[name]
            if not interrupt(first, at):
                ctx.count("completed_instead")  # a later run may take fewer steps (lazy initialisation)
            if pairs:
                interrupt(first, max(1, at // 2))
            ctx.transitions += 1
            key = (name,) + fo
            with np.errstate(all="ignore"):
                got = p.get_gravity(np.array(OBS[fo[0]]), *PAR[fo[1]], fo[2])
            if not same(got, key):
                ctx.fail(
                    f"after a computation interrupted at its line event {at} of {total}, the next one gives\n{got}\n"
                    f"a fresh body gives\n{_want[key]}"
                )
            ctx.outcome("crash", name, oname, grad, at)
        ctx.states += 1
        ctx.traces += 1
    ctx.count("interruption_points", max(0, min(hi, total) - lo + 1))
    return total


# --- threads --------------------------------------------------------------------
# computations of different bodies at the same time: (body, point, parameters, gradient), or the
# construction of the body too
PAIRS = [
    (("A", "o1", "r", True), ("B", "in", "r", False)),
    (("A", "in", "r", False), ("M", "o1", "r", True)),
    (("M", "in", "r", True), ("A", "in", "r", True)),
]
PATIENCE = 1.0  # s without progress: the thread waits for the other one (a lock), let both run


class Side:
    """one thread, stopped just before its `until`-th executed line of the package"""

    def __init__(self, fn, until=None):
        self.fn = fn
        self.until = until
        self.lines = 0
        self.seen = []  # source line of each event
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.got = self.error = None
        self.over = False
        self.thread = threading.Thread(target=self.body, daemon=True)

    def body(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            with np.errstate(all="ignore"):
                self.got = self.fn()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.over = True
            self.back.release()

    def trace(self, frame, event, arg):
        if "/geec/" not in frame.f_code.co_filename:
            return None
        if event == "line":
            self.lines += 1
            self.seen.append((frame.f_code.co_filename, frame.f_lineno))
            if self.lines == self.until:
                self.back.release()
                self.go.acquire()
        return self.trace

    def run(self):
        """let it run until it stops, ends, or waits for the other one"""
        self.go.release()
        return self.back.acquire(timeout=PATIENCE)


def threads(ctx, pair, at, ends, build=False):
    """the first computation runs to its line `at`, the second to its line `ends` (None: to its end),
    then the first to its end, then the second"""
    ctx.at({"threads": [pair, at, ends, build]})
    ctx.states += 1
    ctx.traces += 1
    (ka, kb) = pair
    w = _copy(tuple(sorted({ka[0], kb[0]})))

    def job(k, new=False):
        p = None if new else w.poly[k[0]]

        def fn():
            q = geom.Polyhedron(w.arr[k[0]]) if p is None else p
            return q.get_gravity(np.array(OBS[k[1]]), *PAR[k[2]], k[3])

        return fn

    a, b = Side(job(ka), at), Side(job(kb, build), ends)
    a.thread.start()
    b.thread.start()
    for side in (a, b, a, b):
        if not side.over:
            ctx.transitions += 1
            if not side.run():
                ctx.count("waits")
    for side in (a, b):
        side.go.release()
        side.thread.join(60)
    for side, k in ((a, ka), (b, kb)):
        if side.thread.is_alive():
            ctx.fail(f"the computation {k} does not end")
        if side.error is not None:
            ctx.fail(f"computation {k}, at the same time as another body's: {side.error!r}")
        if not same(side.got, k):
            ctx.fail(f"computation {k}, at the same time as another body's, gives\n{side.got}\n"
                     f"alone it gives\n{_want[k]}")
    ctx.count("schedules")
    return a.seen, b.seen


def reps(seen, n):
    """events that are among the first n executions of their source line (1-based)"""
    c = {}
    out = []
    for i, s in enumerate(seen):
        c[s] = c.get(s, 0) + 1
        if c[s] <= n:
            out.append(i + 1)
    return out


def thread_task(ctx, i, part, nparts, big):
    pair = PAIRS[i]
    sa, sb = threads(ctx, pair, 10**9, 10**9)
    # one switch: at every executed line of the first
    for at in range(1 + part, len(sa) + 1, nparts):
        threads(ctx, pair, at, None)
        threads(ctx, (pair[1], pair[0]), at, None)
    # two switches: executions of every line of both
    for n, at in enumerate(reps(sa, 3 if big else 1)):
        if n % nparts != part:
            continue
        for m, ends in enumerate(reps(sb, 3 if big else 1)):
            if big or i == 0 or (n + m) % 4 == 0:
                threads(ctx, pair, at, ends)
        if big or n % 8 == 0:
            threads(ctx, pair, at, None, True)
    ctx.outcome("threads", i, part)
    ctx.sample({"threads": pair, "lines": [len(sa), len(sb)]})


def debruijn(k, n):
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq


def tasks(tier):
    big = tier == "thorough"
    T = []
    ops = CALLS + OTHER
    depth = 4 if big else 3
    # one long history containing every window of `depth` operations, cut into pieces that overlap
    for i in range(len(ops)):
        if big:
            for j in range(len(ops)):
                T.append(("fresh", (i, j), 2))
        else:
            T.append(("fresh", (i,), 2))
    T.append(("ecef", 4 if big else 3))
    T += [("asides", k) for k in ("show", "copy", "pickle", "spare")]
    for mode in product((False, True), repeat=2):
        T.append(("churn", *mode, 4 if big else 3))
    for g in (False, True):
        for name in ("A", "P"):
            T.append(("crowd", name, g, 5000 if not big else 40000))
        for h in (False, True):
            T += [("twins", name, g, h) for name in ("A", "P")]
    for i in range(len(PAIRS)):
        for part in range(16 if big else 8):
            T.append(("threads", i, part, 16 if big else 8, big))
    seqlen = len(ops) ** depth
    piece = 4000
    for s in range(0, seqlen, piece):
        T.append(("long", depth, s, s + piece + depth))
    for name in ("A", "P") if big else ("A",):
        for o in ("o1", "in") if big else ("in",):
            for g in (False, True):
                w = World((name,))
                total = count_lines(lambda: w.poly[name].get_gravity(np.array(OBS[o]), *PAR["r"], g))
                for lo in range(1, total + 1, 60):
                    T.append(("crash", name, o, g, lo, lo + 59, False))
                    if big:
                        T.append(("crash", name, o, g, lo, lo + 59, True))
    return T


_db = {}


def run_task(task, ctx):
    ops = CALLS + OTHER
    if task[0] == "fresh":
        pre = [ops[i] for i in task[1]]
        for tail in product(ops, repeat=task[2]):
            hist = tuple(pre) + tail
            if not tail[-1][0] in ("call", "shared", "station"):
                continue
            play(hist, ctx, _world())
            ctx.states += 1
            ctx.traces += 1
        ctx.outcome("fresh", task[1])
        ctx.sample({"history": [list(map(str, h)) for h in hist]})
    elif task[0] == "ecef":
        for hist in product(ECALLS, repeat=task[1]):
            play(hist, ctx, _eworld())
            ctx.states += 1
            ctx.traces += 1
            ctx.outcome("ecef", hist)
    elif task[0] == "long":
        n = task[1]
        if n not in _db:
            _db[n] = debruijn(len(ops), n)
        seq = _db[n][task[2] : task[3]]
        w = World()
        hist = []
        with np.errstate(all="ignore"):
            for j in seq:
                op = ops[j]
                hist.append(op)
                ctx.at({"history": tuple(hist[-6:]), "long": task})
                step(w, op, ctx, tuple(hist[-6:]))
            check_kept(w, ctx, tuple(hist[-6:]))
        ctx.states += 1
        ctx.traces += 1
        ctx.outcome("long", task)
    elif task[0] == "crash":
        crash_task(*task[1:6], ctx, pairs=task[6])
    elif task[0] == "threads":
        thread_task(ctx, *task[1:])
    elif task[0] == "churn":
        for seq in product([(b, g) for b in "ABM" for g in (False, True)], repeat=task[3]):
            churn(ctx, *task[1:3], seq)
    elif task[0] == "asides":
        for b in "ABM":
            ops = [c for c in CALLS if c[1] == b]
            for x in ops:
                for y in ops:
                    play((x, (task[1], b), y), ctx, _world())
                    ctx.states += 1
                    ctx.traces += 1
        ctx.outcome(task)
    elif task[0] == "twins":
        twins(ctx, *task[1:])
    elif task[0] == "crowd":
        crowd(ctx, *task[1:])


def churn(ctx, reuse, keep, seq):
    """bodies built one after the other: none knows of the ones before"""
    ctx.at({"churn": [reuse, keep, seq]})
    buf = np.zeros((4, 3))
    kept = []
    ctx.states += 1
    ctx.traces += 1
    p = None
    for i, (name, grad) in enumerate(seq):
        p = None
        if reuse:
            buf[...] = BODIES[name]
        p = geom.Polyhedron(buf if reuse else BODIES[name].copy())
        for o in ("o1", "in"):
            ctx.transitions += 1
            with np.errstate(all="ignore"):
                got = p.get_gravity(np.array(OBS[o]), *PAR["r"], grad)
            if not same(got, (name, o, "r", grad)):
                ctx.fail(f"bodies built in turn {list(seq[:i + 1])}: the last one gives at {o}\n{got}\n"
                         f"a fresh one gives\n{_want[(name, o, 'r', grad)]}")
        if keep:
            kept.append(p)
    ctx.outcome("churn", reuse, keep, seq)


def crowd(ctx, name, grad, n):
    """one body seen from n points, twice"""
    p = _copy((name,)).poly[name]
    pts = [(0.25 + (i % 37) / 8, 0.125 + (i // 37 % 41) / 8, 0.0625 + i // 1517 * 0.25 - (i % 5)) for i in range(n)]
    first = []
    with np.errstate(all="ignore"):
        for turn in range(2):
            for i, o in enumerate(pts):
                ctx.at({"crowd": [name, grad, n], "turn": turn, "point": i})
                ctx.transitions += 1
                g, t = p.get_gravity(np.array(o), *PAR["r"], grad)
                g, t = np.array(g), np.array(t)
                if turn == 0:
                    fresh = _copy((name,)).poly[name].get_gravity(np.array(o), *PAR["r"], grad)
                    first.append((np.array(fresh[0]), np.array(fresh[1])))
                wg, wt = first[i]
                k = 1e-11 * RHO * GC * scale(name)
                if not np.max(np.abs(g - wg)) <= k * 1e5 or not np.max(np.abs(t - wt)) <= k * 1e9:
                    ctx.fail(f"turn {turn}, point {i}: {o} gets\n{g}, {t}\na fresh body gives\n{wg}, {wt}")
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome("crowd", name, grad)


def twins(ctx, name, ga, gb):
    fresh = {}
    with np.errstate(all="ignore"):
        for o in TWINS:
            for g in (ga, gb):
                q = _copy((name,)).poly[name].get_gravity(np.array(o), *PAR["r"], g)
                fresh[o, g] = (np.array(q[0]), np.array(q[1]))
        k = 1e-11 * RHO * GC * scale(name)
        for a, b in product(TWINS, repeat=2):
            ctx.at({"twins": [name, ga, gb]})
            p = _copy((name,)).poly[name]
            for o, g in ((a, ga), (b, gb), (a, gb)):
                got = p.get_gravity(np.array(o), *PAR["r"], g)
                ctx.transitions += 1
                wg, wt = fresh[o, g]
                if not np.max(np.abs(got[0] - wg)) <= k * 1e5 or not np.max(np.abs(got[1] - wt)) <= k * 1e9:
                    ctx.fail(f"{a}, then {b}, then {a}: {o} gets\n{got}\na fresh body gives\n{wg}, {wt}")
            ctx.states += 1
            ctx.traces += 1
    ctx.outcome("twins", name, ga, gb)


_proto = {}


def _copy(names):
    """bodies as good as new: deep copies of bodies on which nothing was ever computed"""
    if names not in _proto:
        _proto[names] = World(names)
    try:
        return copy.deepcopy(_proto[names])
    except Exception:  # bodies need not be copyable
        return World(names)


def _world():
    return _copy(("A", "B", "M"))


def _eworld():
    return _copy(("E",))


def run_case(case, ctx):
    from core import _tuplify

    if "long" in case:
        run_task(_tuplify(case["long"]), ctx)
    elif "churn" in case:
        r, k, seq = _tuplify(case["churn"])
        churn(ctx, r, k, seq)
    elif "threads" in case:
        pair, at, ends, build = case["threads"]
        threads(ctx, _tuplify(pair), at, ends, build)
    elif "twins" in case:
        twins(ctx, *case["twins"])
    elif "crowd" in case:
        crowd(ctx, *case["crowd"])
    elif "history" in case:
        play(_tuplify(case["history"]), ctx)
    elif "crash" in case:
        n, o, g, at = case["crash"]
        crash_task(n, o, g, at, at, ctx)
