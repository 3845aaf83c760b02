"""C14: the result file is the field of the configured bodies at the configured points."""
import os
from itertools import product

import numpy as np

import clienv
from scenario import SHAPES, Scenario, judge
from twins import TWINS

ID = "C14"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "one body: 7 geographic systems x 4 vertical datums x 7 observer systems x gradient on/off x body and"
    " observers inline, in files or on a grid; every ordered pair of bodies over 7 systems (own density, constant, datum); every triple over 3"
    " systems; a Cartesian world: every list of 1 to 3 of 4 bodies x 3 sources x 1 to 4 points; configuration given"
    " (here or in another folder, under 11 other names) or the user's; surveys of 6 to 5000 points; lists of 4 to 33 bodies; repeated and reordered points, points on and in the"
    " bodies, one non-finite point among three;"
    " bodies whose density or constant is zero; points 1e-6 m apart, and 1e-10 m apart at a body of 1e-6 m; 21 points with the same hash, sum, norm or rounding; every history of 3 runs over 6 scenarios in one process; 2 runs of the real command",
    "thorough": "every ordered pair of bodies over (system, datum), every triple over 7 systems, histories of 4",
}
ASSUMPTIONS = [
    "bodies and observers in the same world: all Cartesian, or all Earth-fixed; observation points off the bodies' surfaces",
    "heights of observers are ellipsoid heights (their configuration has no vertical datum)",
    "the two missing geoid grids are replaced by synthetic ones",
]
setup = clienv.setup
init_worker = clienv.init_worker
GEO = ("WGS84", "AIRY", "AXES", "NULL", "ENUW", "ENUA", "ECEF")
VD = (None, "ellps", "egm84", "egm96", "egm2008")


def run(ctx, masses, obs, gradient, where="arg", extra=None):
    case = {"masses": [list(m) for m in masses], "obs": list(obs), "gradient": gradient, "where": where}
    ctx.at(case)
    clienv.fresh()
    one(ctx, Scenario(masses, obs), gradient, where)


def one(ctx, sc, gradient, where, out="res.csv", real=False):
    clienv.home_config(None)
    args = ["run"]
    if gradient is not None:
        args.append("--gradient" if gradient else "--no-gradient")
    if where == "home":
        sc.write(None)
        clienv.home_config(clienv.yaml(sc.config))
    elif where == "sub":
        # paths of points are relative to the working directory, not to the configuration file
        sc.write(None)
        for f in sc.files:
            clienv.write(os.path.join("conf", f), "0,0,7.5\n1,0,9\n0,1,9\n0,0,12\n3,3,11\n")
        args += ["--config", clienv.write("conf/cfg.yaml", clienv.yaml(sc.config))]
    elif where.startswith("as "):
        sc.write(None)
        args += ["--config", clienv.write(where[3:], clienv.yaml(sc.config))]
    else:
        args += ["--config", sc.write()]
    args.append(out)
    if real:
        rc, exc, txt = realcli(args)
    else:
        rc, exc, txt = clienv.cli(args)
    ctx.states += 1
    ctx.transitions += 1
    if rc != 0:
        ctx.fail(f"geec {' '.join(args)} failed (exit code {rc}): {exc!r} {txt[-400:]}")
    with open(out) as f:
        t = f.read()
    judge(ctx, sc, t, bool(gradient))
    ctx.outcome(t)


def realcli(args):
    import subprocess
    import sys

    r = subprocess.run(
        [sys.executable, "-B", os.path.join(os.path.dirname(os.path.abspath(__file__)), "realcli.py"), os.path.join(clienv.ROOT, "log")] + args,
        capture_output=True, text=True,
    )
    return r.returncode, None, r.stdout + r.stderr


CARTB = [("CART", "box", 0, None, 0, "points"), ("CART", "tet", 1, None, 1, "file"), ("CART", "roof", 2, None, 2, "points"), ("CART", "box", 3, None, 3, "file")]
CALLED = ("cfg", "cfg.txt", "cfg.yml", "cfg.YAML", "cfg.yaml.old", "my config.yaml", ".cfg", "cfg.d/in.1/c", "config.yaml", "config_default.yaml", "r\u00e9glage.yaml")
HIST = [
    ([CARTB[0]], ("CART", "points", 2), False),
    ([CARTB[1], CARTB[0]], ("CART", "file", 3), True),
    ([("WGS84", "box", 0, "egm96", 0, "points")], ("AIRY", "points", 2), True),
    ([("ENUA", "tet", 0, None, 1, "points"), ("WGS84", "roof", 0, "egm84", 2, "file")], ("ENUW", "points", 2), None),
    ([("ECEF", "box", 1, None, 3, "file")], ("WGS84", "points", 3), False),
    ([("AIRY", "tet", 2, "egm2008", 1, "points")], ("ECEF", "points", 5), True),
]


SURVEY = (6, 17, 64, 65, 130, 1100)
CROWD = (4, 5, 7, 8, 9, 16, 17, 33)


def history(ctx, seq):
    clienv.fresh()
    ctx.at({"history": list(seq)})
    for i, k in enumerate(seq):
        m, o, g = HIST[k]
        one(ctx, Scenario(m, o), g, "home" if i == 1 else "arg")


def nonfinite(ctx, sys_, pos, value, gradient):
    """one of three observation points is not finite: the run fails, or writes its row, without a gravity"""
    import scenario

    ctx.at({"nonfinite": [sys_, pos, repr(value), gradient]})
    clienv.fresh()
    body = CARTB[0] if sys_ == "CART" else ("WGS84", "box", 0, None, 0, "points")
    good = [tuple(map(float, p)) for p in scenario.obs_points(sys_, 2)]
    sc = Scenario([body], (sys_, "points", tuple(good)))
    pts = [list(p) for p in good]
    bad = list(good[0])
    bad[pos % 3] = value
    pts.insert(pos, bad)
    sc.config["observers"]["points"] = pts
    ctx.states += 1
    ctx.transitions += 1
    rc, exc, txt = clienv.cli(["run", "--gradient" if gradient else "--no-gradient", "--config", sc.write(), "res.csv"])
    if rc != 0:
        if os.path.exists("res.csv"):
            ctx.fail("the run failed but left a result")
        ctx.count("nonfinite_refused")
        return
    with open("res.csv") as f:
        lines = f.read().splitlines(keepends=True)
    if len(lines) != 5:
        ctx.fail(f"{len(lines) - 2} rows for 3 observation points")
    row = lines.pop(2 + pos).strip().split(",")
    for v in row[3:6]:
        if v and np.isfinite(float(v)):
            ctx.fail(f"a gravity at the observation point {bad}: {row}")
    judge(ctx, sc, "".join(lines), gradient)
    ctx.count("nonfinite_row")


# observation points close to each other, compared with the body, are still different points
CLOSE = (
    ((0.0, 0.0, 3.0), (0.0, 0.0, 3.0001), (1e-4, 0.0, 3.0), (1e-4, 1e-5, 3.0), (1e-5, 0.0, 3.0), (0.0, 1e-6, 3.0), (0.0, 0.0, 3.0)),
    ((0.0, 0.0, 3e-6), (0.0, 1e-9, 3e-6), (1e-10, 0.0, 3e-6), (1e-10, 0.0, 3.01e-6), (2e-6, 1e-6, 3e-6)),
)


def tasks(tier):
    big = tier == "thorough"
    T = []
    for s in GEO:
        T += [("single", s, v) for v in VD]
        T += [("pairs", s, v, big) for v in ((None, "egm96") if not big else VD)]
    T += [("cart", n, k) for n in (3, 2, 1) for k in range(4)]
    tri = GEO if big else ("AIRY", "ENUW", "ECEF")
    T += [("triple", s, t, tri) for s in tri for t in tri]
    T += [("hist", k, j, 4 if big else 3) for k in range(len(HIST)) for j in range(len(HIST))]
    for s in ("CART", "WGS84", "ENUA", "ECEF"):
        for n in SURVEY:
            T.append(("survey", s, n))
    T.insert(0, ("survey", "CART", 5000))
    for n in CROWD if not big else range(4, 41):
        T.append(("crowd", n))
    for s in GEO + ("CART",):
        T += [("lists", s), ("nonfinite", s), ("nought", s)]
    T += [("close",), ("twins",), ("real", 1), ("real", 3), ("sources",), ("called",)]
    return T


def run_task(task, ctx):
    if task[0] == "single":
        _, s, v = task
        for i, o in enumerate(GEO):
            for g in (False, True):
                run(ctx, [(s, ("box", "tet", "roof")[i % 3], i % 3, v, i % 4, ("points", "file")[i % 2])], (o, "points", None), g)
            run(ctx, [(s, ("tet", "roof", "box")[i % 3], 0, v, i % 4, "points")], (o, "grid" if i % 2 else "file", 1 + i % 5), True)
        ctx.sample({"system": s, "datum": v})
    elif task[0] == "pairs":
        _, s, v, big = task
        for i, t in enumerate(GEO):
            for w in VD if big else ("egm84", None, "egm2008")[i % 3 : i % 3 + 1]:
                run(ctx, [(s, "box", 0, v, 0, "points"), (t, "tet", 1, w, 1, "file")], (GEO[(i + 3) % 7], "points", 4), True)
                run(ctx, [(t, "roof", 0, w, 2, "points"), (s, "roof", 0, v, 3, "points")], (GEO[(i + 1) % 7], "points", 2), None)
    elif task[0] == "triple":
        _, s, t, tri = task
        for u in tri:
            run(ctx, [(s, "box", 0, "egm84", 1, "points"), (t, "box", 0, None, 0, "points"), (u, "tet", 1, "egm96", 2, "points")], ("WGS84", "points", 2), True)
    elif task[0] == "cart":
        for bs in product(CARTB, repeat=task[1] - 1):
            bs = (CARTB[task[2]],) + bs
            for src, n in (("points", 1), ("points", 4), ("file", 3), ("grid", None)):
                for g in (True, None) if n != 4 else (True, False):
                    run(ctx, bs, ("CART", src, n), g, "home" if n == 3 else "sub" if n == 4 else "arg")
    elif task[0] == "survey":
        _, s, n = task
        for src, g in (("file", True), ("points", None)) if n < 1000 else (("file", n % 3 == 0),):
            if s == "CART":
                run(ctx, [CARTB[0], CARTB[1]] if n < 1000 else [CARTB[1]], (s, src, n), g)
            else:
                run(ctx, [("WGS84", "tet", 0, "egm96", 0, "points")], (s, src, n), g)
    elif task[0] == "lists":
        s = task[1]
        body = CARTB[0] if s == "CART" else ("WGS84", "box", 0, None, 0, "points")
        more = CARTB[1] if s == "CART" else ("AIRY", "tet", 1, "egm96", 1, "file")
        for which in ("twice", "again", "back", "same", "around"):
            for src in ("points", "file"):
                for g in (None, True) if which != "around" else (False,):
                    run(ctx, [body], (s, src, which), g)
                    run(ctx, [more, body], (s, src, which), g)
        if s == "ENUW":
            run(ctx, [("ENUW", "box", 0, None, 0, "points")], (s, "points", "around"), False)
    elif task[0] == "nought":  # density or constant zero, or far from the usual
        s = task[1]
        for k in range(4, 8):
            for other in (None, 0, 4, 5):
                ms = [(s, "box", 0, None, k, "points")]
                if other is not None:
                    ms += [(s, "tet", 1, None, other, "points")]
                run(ctx, ms, (s, "points", 2), True)
                run(ctx, ms[::-1], (s, "points", 2), None)
    elif task[0] == "close":
        for i, place in enumerate((0, "tiny")):
            for shape in SHAPES:
                for src in ("points", "file"):
                    for n in range(1, len(CLOSE[i]) + 1):
                        run(ctx, [("CART", shape, place, None, 0, src)], ("CART", src, CLOSE[i][-n:]), n % 2 == 0)
    elif task[0] == "twins":
        for shape in SHAPES:
            for src in ("points", "file"):
                for k in range(0, len(TWINS), 4):
                    run(ctx, [("CART", shape, 0, None, 0, src)], ("CART", src, tuple(TWINS[k:] + TWINS[:k])), k % 8 == 0)
    elif task[0] == "nonfinite":
        for pos in range(3):
            for value in (np.nan, np.inf, -np.inf):
                for g in (False, True):
                    nonfinite(ctx, task[1], pos, value, g)
    elif task[0] == "crowd":
        n = task[1]
        run(ctx, [CARTB[(i * i + i // 3) % 4] for i in range(n)], ("CART", "points", 3), True)
        run(ctx, [(GEO[i % 7], ("box", "tet", "roof")[i % 3], i % 2, VD[i % 5], i % 4, ("points", "file")[i % 2]) for i in range(n)],
            ("WGS84", "points", 2), True)
    elif task[0] == "hist":
        for rest in product(range(len(HIST)), repeat=task[3] - 2):
            history(ctx, (task[1], task[2]) + rest)
    elif task[0] == "called":
        for w in CALLED:
            for s, src in (("CART", "points"), ("WGS84", "file"), ("ENUA", "grid")):
                b = CARTB[0] if s == "CART" else ("AIRY", "box", 0, "egm96", 2, "points")
                run(ctx, [b], (s, src, 2), True, "as " + w)
    elif task[0] == "sources":
        for s in GEO:
            for src in ("points", "file", "grid"):
                for n in (1, 2, 3, 5):
                    run(ctx, [("WGS84", "box", 0, None, 0, "points")], (s, src, n), True, {2: "home", 3: "sub"}.get(n, "arg"))
    else:
        m, o, g = HIST[task[1]]
        clienv.fresh()
        ctx.at({"real": task[1]})
        one(ctx, Scenario(m, o), g, "arg", real=True)


def run_case(case, ctx):
    if "masses" in case:
        run(ctx, [tuple(m) for m in case["masses"]], case["obs"], case["gradient"], case["where"])
    elif "nonfinite" in case:
        s, pos, v, g = case["nonfinite"]
        nonfinite(ctx, s, pos, float(v), g)
    elif "history" in case:
        history(ctx, tuple(case["history"]))
    else:
        run_task(("real", case["real"]), ctx)
