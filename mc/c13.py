"""C13: the points of a body or of the observers are exactly those given."""
import math
import os
from itertools import permutations, product

import numpy as np

import clienv
import crsenv
from crsenv import conf

ID = "C13"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every combination of {null, empty, 4 lists} of points x {null, empty, 4 readable, 3 missing} files x {null, 3}"
    " grids, for masses and observers; every list of 1 to 3 points over 7 spellings of numbers (integers, decimals, exponents, mixed"
    " types) in every coordinate, inline (YAML) and in files of 7 layouts; every grid over 15 exact"
    " (start, end, step) ranges per axis (3375, some with negative steps); files of up to 200003 points, lists of up to 70001; numbers of 25 magnitudes written with 16 to 26 digits in 4 ways; every point over 11 more spellings; files of 20 names x 5 ways to name them; files written again with the same size and date; rows and points that are none at every position; masses: every number of bodies 1 to 4 with sources in every order, 5 to 100 bodies;"
    " every density and constant of 7 values, zero included, for 1 and 2 bodies; 126 grids with an empty range",
    "thorough": "as quick, lists of 4 points; grids over 17 ranges per axis; histories of two readings of every pair of sources",
}
ASSUMPTIONS = [
    "grid bounds and steps are such that the number of points is unambiguous in floating point",
]
setup = clienv.setup
init_worker = clienv.init_worker
CRS = crsenv.crs_conf("cart")


def dataset(d, who):
    """coordinates, through the public readers"""
    import geec.dataset
    import geec.mass
    import geec.observer

    d = dict(d, crs=CRS)
    if who == "dataset":
        return geec.dataset.get_dataset(conf({"d": d})["d"]).coords
    if who == "observer":
        return geec.observer.get_observer(conf({"observers": d})).dataset.coords
    return geec.mass.get_masses(conf({"masses": [dict(d, density=1.0, gravity_constant=2.0)]}))[0].dataset.coords


def same(ctx, got, want, rel=0.0):
    g, w = np.asarray(got), np.asarray(want, dtype=np.float64).reshape(-1, 3)
    ctx.transitions += 1
    if g.dtype != np.float64:
        ctx.fail(f"coordinates are {g.dtype}, not float64")
    if g.shape != w.shape:
        ctx.fail(f"{g.shape} coordinates, expected {w.shape}")
    if not np.all(np.abs(g - w) <= rel * np.abs(w)):
        i = int(np.argmax(np.abs(g - w).max(axis=1)))
        ctx.fail(f"point {i} is {g[i].tolist()}, expected {w[i].tolist()}")


LISTS = [
    [[1, 2, 3]],
    [[0.5, -1, 2e3], [4, 5, 6], [-7.25, 8, 0]],
    [[0, 0, 0], [0, 0, 0]],
    [[3, 2, 1], [-1, 0, 0], [3, 2, 1], [0.0, -0.5, 7], [-1, 0, 0]],
]
FILES = {
    "a.csv": [[11.5, -12.0, 13.25], [14.0, 15.0, -16.0]],
    "sub/b.csv": [[21.0, 22.0, 23.0]],
    "dup.csv": [[1.0, 2.0, 3.0], [1.0, 2.0, 3.0], [-4.0, 5.0, 6.0], [1.0, 2.0, 3.0], [-9.0, 0.0, 0.0], [-4.0, 5.0, 6.0]],
    "c.txt": [[31.0, 32.5, 33.0], [34.0, 35.0, 36.0], [37.0, 38.0, 39.0], [-1e5, 1e-3, 0.0]],
}
MISSING = ["none.csv", "sub", "/nonexistent/x.csv"]
GRIDS = [
    ([0, 2, 1], [10, 11, 0.5], [0, 1, 1]),
    ([-1.0, 1.0, 0.5], [5, 6, 1], [-3, 0, 1.5]),
    ([-1.05, 1.06, 0.1], [-1.05, 1.06, 0.1], [0, 1, 1]),
]


def rows(r):
    return "".join(",".join(repr(v) for v in p) + "\n" for p in r)


def axis(a):
    s, e, st = a
    n = math.ceil((e - s) / st)
    return [s + k * st for k in range(n)]


def mesh(g):
    return [[x, y, z] for x in axis(g[0]) for y in axis(g[1]) for z in axis(g[2])]


def gridconf(g):
    return None if g is None else dict(zip(("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep"), map(list, g)))


def files():
    clienv.fresh()
    for f, r in FILES.items():
        clienv.write(f, rows(r))


def want(points, file, grid):
    """("ok", coordinates, rel) or ("missing",) or ("none",)"""
    if points:
        return "ok", points, 0.0
    if file:
        return ("ok", FILES[file], 0.0) if file in FILES else ("missing",)
    if grid:
        return "ok", mesh(grid), 1e-13
    return ("none",)


def choose(ctx, points, file, grid, who):
    ctx.at({"choose": [points, file, grid, who]})
    w = want(points, file, grid)
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome(points, file, grid)
    try:
        c = dataset({"points": points, "file_path": file, "grid": gridconf(grid)}, who)
    except Exception as e:
        if w[0] == "ok":
            ctx.fail(f"refused: {type(e).__name__}: {e}")
        if w[0] == "missing" and file != "sub" and not isinstance(e, FileNotFoundError):
            ctx.fail(f"missing file reported as {type(e).__name__}")
        ctx.count("refused_" + w[0])
        ctx.transitions += 1
        return
    if w[0] != "ok":
        ctx.fail(f"no coordinates ({w[0]}), but {np.asarray(c).shape} were read")
    if grid and not points and not file:
        scale = max(abs(v) for p in w[1] for v in p)
        g, ww = np.asarray(c), np.asarray(w[1], float)
        if g.shape != ww.shape or g.dtype != np.float64 or np.abs(g - ww).max() > 1e-13 * scale:
            ctx.fail(f"grid gave {g.shape} {g[:4].tolist()}, expected {ww.shape} {ww[:4].tolist()}")
        ctx.transitions += 1
    else:
        same(ctx, c, w[1], w[2])


NUM = ["3", "-0.5", "1.5e3", "6378137.123456789", "0", "-1.0e-3", "12345678901.0"]
LAYOUT = {
    "plain": (",", "\n", True),
    "no end": (",", "\n", False),
    "crlf": (",", "\r\n", True),
    "spaces": (", ", "\n", True),
    "wide": (" , ", "\n", True),
    "blank line": (",", "\n", "blank"),
    "tabs": (",\t", "\n", True),
}


def spelled(ctx, txt):
    """txt: rows of spelled numbers; inline and from a file of every layout"""
    import yaml

    vals = [[float(v) for v in r] for r in txt]
    ctx.at({"spelled": txt})
    inline = yaml.safe_load("[" + ", ".join("[" + ", ".join(r) + "]" for r in txt) + "]")
    for who in ("mass", "observer"):
        same(ctx, dataset({"points": inline, "file_path": None, "grid": None}, who), vals)
    for name, (sep, nl, end) in LAYOUT.items():
        body = nl.join(sep.join(r) for r in txt) + (nl if end else "") + (nl if end == "blank" else "")
        with open("t.csv", "w", newline="") as f:
            f.write(body)
        ctx.at({"spelled": txt, "layout": name})
        for who in ("dataset",):
            same(ctx, dataset({"points": [], "file_path": "t.csv", "grid": None}, who), vals)
        with open("t.csv", newline="") as f:
            if f.read() != body:
                ctx.fail("reading a file changed it")
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome(txt)


RANGES = [
    (0, 1, 1), (0, 3, 1), (0.0, 1.0, 0.25), (-2, 2, 1.5), (-1.5, 0, 0.5), (5, 5.1, 1), (100, 101, 0.3), (-3, -1, 1), (0.5, 2.75, 0.75), (1e6, 1e6 + 2, 1), (0, 2, 0.7),
    (-1.05, 1.06, 0.1), (10, 0, -4), (0, 2.0**-20, 2.0**-22), (3e9, 3e9 + 1024, 512), (-0.25, 0.25, 0.125), (7, 8, 0.9),
]


HOLLOW = ([0, 0, 1], [2.5, 2.5, 0.5], [-3, -3, 1], [1, 0, 1], [0, 5, -1], [-1e6, -1e6, 10])


def bodies(ctx, srcs):
    """several bodies in one configuration, each with its own source, density and constant"""
    import geec.mass

    ctx.at({"bodies": list(srcs)})
    cf, ws = [], []
    for k, s in enumerate(srcs):
        p, f, g = [(LISTS[1], None, None), (None, "a.csv", None), ([], "", GRIDS[0]), (LISTS[0], "c.txt", None)][s]
        cf.append({"points": p, "file_path": f, "grid": gridconf(g), "crs": CRS, "density": 10.5 + k if k else 3, "gravity_constant": 6.6e-11 + k * 1e-12})
        ws.append(want(p, f, g))
    ms = geec.mass.get_masses(conf({"masses": cf}))
    ctx.require(len(ms) == len(srcs), f"{len(ms)} bodies, expected {len(srcs)}")
    for m, c, w in zip(ms, cf, ws):
        same(ctx, m.dataset.coords, w[1])
        if m.density != c["density"] or m.gravity_constant != c["gravity_constant"]:
            ctx.fail(f"density {m.density}, constant {m.gravity_constant}, expected {c['density']}, {c['gravity_constant']}")
    for i, m in enumerate(ms):  # independent copies
        m.dataset.coords[0, 0] += 1000.0
        for j, (o, w) in enumerate(zip(ms, ws)):
            if j > i:
                same(ctx, o.dataset.coords, w[1])
    ms2 = geec.mass.get_masses(conf({"masses": cf}))
    for m, w in zip(ms2, ws):
        same(ctx, m.dataset.coords, w[1])
    ctx.states += 1
    ctx.traces += 1


VALUES = (0, 0.0, 1, -2.5, 1e-300, 2670.0, 6.67408e-11)


def values(ctx, dens, cons):
    """densities and constants of every kind, zero included, are used as given"""
    import geec.mass

    ctx.at({"values": [dens, cons]})
    cf = [{"points": LISTS[k % 4], "file_path": None, "grid": None, "crs": CRS, "density": d, "gravity_constant": c} for k, (d, c) in enumerate(zip(dens, cons))]
    ms = geec.mass.get_masses(conf({"masses": cf}))
    got = [(m.density, m.gravity_constant) for m in ms]
    if got != list(zip(dens, cons)):
        ctx.fail(f"densities and constants {got}, expected {list(zip(dens, cons))}")
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += 1
    ctx.outcome(dens, cons)


def hollow(ctx, g, who):
    """a grid with an empty range has no point: an empty set or an error, not a point"""
    ctx.at({"hollow": [g, who]})
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += 1
    try:
        c = dataset({"points": None, "file_path": None, "grid": gridconf(g)}, who)
    except Exception:
        ctx.count("hollow_refused")
        return
    if np.size(c):
        ctx.fail(f"the grid {g} has no point, {np.asarray(c)[:4].tolist()} were read")
    ctx.count("hollow_empty")


def large(ctx, n, how):
    """many points: no limit, chunk or change of type on the way"""
    rows_ = [[(7 * k) % 1000, -k if k % 3 else k + 0.5, 0 if k < n - 1 else 1.25] for k in range(n)]
    vals = [[float(v) for v in r] for r in rows_]
    ctx.at({"large": [n, how]})
    kind = how.partition(" ")[2]
    if kind == "first":  # types of numbers change along the list
        rows_[0] = [3, 2, 1]
    elif kind == "last":
        rows_ = [[k, -k, 2 * k % 5] for k in range(n - 1)] + [[0.5, 0.25, -7.125]]
    elif kind == "half":
        rows_ = [[k, -k, 5] if k < n // 2 else [k, 0.1, -0.25] for k in range(n)]
    vals = [[float(v) for v in r] for r in rows_]
    if how.startswith("inline"):
        c = dataset({"points": rows_, "file_path": None, "grid": None}, "observer")
    else:
        with open("large.csv", "w") as f:
            f.write(rows(rows_))
        c = dataset({"points": None, "file_path": "large.csv", "grid": None}, "observer")
    same(ctx, c, vals)
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome(n, how)


def digits(ctx, e):
    """numbers with all their digits, as written by other programs"""
    m = 10.0**e
    r = [[k * 0.1 * m, -k / 7 * m, (k * 0.7) ** 0.5 * m + k] for k in range(1, 400)]
    ctx.at({"digits": e})
    for fmt in (repr, lambda v: "%.17e" % v, lambda v: "%.16g" % v, lambda v: "%.25f" % v):
        txt = [[fmt(v) for v in p] for p in r]
        vals = [[float(v) for v in p] for p in txt]
        with open("digits.csv", "w") as f:
            f.write("".join(",".join(p) + "\n" for p in txt))
        same(ctx, dataset({"points": None, "file_path": "digits.csv", "grid": None}, "mass"), vals)
        same(ctx, dataset({"points": vals, "file_path": None, "grid": None}, "observer"), vals)
        ctx.states += 1
        ctx.traces += 1
    ctx.outcome("digits", e)


GOOD = ["1,2,3", "4.5,-5,6e1", "7,8,9"]
BADROW = ["1,2,3,4", "a,b,c", "1,2,x", "x,y,z", "1;2;3", "lon,lat,h", "1,2,", ",2,3", "1,,3", "nan,2,3", "1,2", "5", ",,", "// 1,2,3",
          "1.2.3,4,5", "%1,2,3", "NA,1,2", "1e5x,0,0", "--1,2,3", "12°,1,2", "-,1,2", "null,1,1"]


def badfile(ctx, pos, bad):
    """a row that is not a point is an error: points are never left out silently"""
    lines = GOOD[:pos] + [bad] + GOOD[pos:]
    ctx.at({"badfile": [pos, bad]})
    clienv.write("bad.csv", "\n".join(lines) + "\n")
    try:
        c = dataset({"points": None, "file_path": "bad.csv", "grid": None}, "mass")
    except Exception:
        ctx.count("refused_bad_row")
    else:
        # points that no body or station accepts are refused later; plausible ones are not
        if np.shape(c)[1:] == (3,) and np.all(np.isfinite(c)):
            ctx.fail(f"{lines} was read as {np.asarray(c).tolist()}")
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += 1


SPELL = ["3", "+2.25", ".5", "5.", "1E+5", "-0.0", "1e-3", "007.5", "-1.E2", "1e-300", "123456789012345678901"]
PLACES = [
    "x.csv", "x", "x.CSV", "X.csv", "x.dat", "x.xyz", "x.csv.bak", "with space.csv", "données.csv", "x,y.csv", "x#1.csv", "2024.csv", "a.b.c.csv",
    ".hidden.csv", "x.csv~", "deep/er/x.csv", "deep/x", "-x.csv", "x%20y.csv", "x'y.csv",
]


def named(ctx, way):
    """files of any name, all different, side by side"""
    vals = {}
    for k, f in enumerate(PLACES):
        vals[f] = [[k + 0.5, -k, 2.0 * k + i] for i in range(2 + k % 3)]
        clienv.write(f, rows(vals[f]))
    os.makedirs("elsewhere", exist_ok=True)
    for k, f in enumerate(PLACES):
        ctx.at({"named": way})
        p = f
        if way == "absolute":
            p = os.path.abspath(f)
        elif way == "dot":
            p = "./" + f
        elif way == "up":
            p = "elsewhere/../" + f
        elif way == "link":
            p = f"elsewhere/link{k}"
            os.symlink(os.path.abspath(f), p)
        for who in ("dataset", "mass", "observer"):
            same(ctx, dataset({"points": None, "file_path": p, "grid": None}, who), vals[f])
        ctx.states += 1
        ctx.traces += 1
    ctx.outcome("named", way)


def stale(ctx, who):
    """a file read again after other points were written to it, whatever its size and date say"""
    ctx.at({"stale": who})
    date = None
    for k, text in enumerate(["1,2,3\n4,5,6\n", "1,2,3\n4,5,7\n", "9,2,3\n4,5,7\n", "9,2,3\n", "9,2,3\n4,5,7\n", "1,2,3\n4,5,6\n"]):
        for how in ("write", "replace"):
            clienv.write("s.csv" if how == "write" else "new.csv", text)
            if how == "replace":
                os.replace("new.csv", "s.csv")
            if date:
                os.utime("s.csv", ns=date)
            st = os.stat("s.csv")
            date = (st.st_atime_ns, st.st_mtime_ns)
            same(ctx, dataset({"points": None, "file_path": "s.csv", "grid": None}, who), [[float(v) for v in r.split(",")] for r in text.split()])
    os.remove("s.csv")
    try:
        c = dataset({"points": None, "file_path": "s.csv", "grid": None}, who)
    except Exception:
        pass
    else:
        ctx.fail(f"{np.asarray(c).tolist()} were read from a file that is no more")
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome("stale", who)


BADPOINTS = [["x", 2, 3], [1, 2], [1, 2, [3]], {"a": 1}, "abc"]


def badlist(ctx, pos, k):
    pts = [[1, 2, 3], [4.5, -5, 60.0], [7, 8, 9]]
    pts.insert(pos, BADPOINTS[k])
    ctx.at({"badlist": [pos, k]})
    try:
        c = dataset({"points": pts, "file_path": None, "grid": None}, "mass")
    except Exception:
        ctx.count("refused_bad_point")
    else:
        if np.shape(c)[1:] == (3,) and np.all(np.isfinite(c)):
            ctx.fail(f"{pts} was read as {np.asarray(c).tolist()}")
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += 1


CH = [(p, f, g) for p in [None, []] + LISTS for f in [None, ""] + list(FILES) + MISSING for g in [None] + GRIDS]


def tasks(tier):
    big = tier == "thorough"
    T = [("choose", w) for w in ("dataset", "mass", "observer")]
    T += [("spelled", i, 4 if big else 3) for i in range(len(NUM))]
    T += [("large", s + k) for s in ("inline", "file") for k in ("", " first", " last", " half")] + [("bad",)]
    T += [("spell", i) for i in range(len(SPELL))] + [("named", w) for w in ("as is", "absolute", "dot", "up", "link")]
    T += [("stale", w) for w in ("dataset", "mass", "observer")] + [("many", n) for n in (5, 11, 12, 33, 100)]
    T += [("digits", e) for e in range(-12, 13)]
    R = 17 if big else 15
    T += [("grid", i, R) for i in range(R)]
    T += [("bodies", n) for n in (1, 2, 3, 4)] + [("values",), ("hollow",)]
    if big:
        T += [("two", i) for i in range(0, len(CH), 8)]
    return T


def run_task(task, ctx):
    files()
    if task[0] == "choose":
        for c in CH:
            choose(ctx, *c, task[1])
        ctx.sample({"choose": CH[5]})
    elif task[0] == "spelled":
        i = task[1]
        for n in range(1, task[2] + 1):
            for j, k in product(range(len(NUM)), repeat=2):
                spelled(ctx, [[NUM[(i + r) % 7], NUM[(j + 2 * r) % 7], NUM[(k + 3 * r) % 7]] for r in range(n)])
    elif task[0] == "large":
        for n in (1, 2, 3, 10, 100, 1000, 1025, 4097, 200003 if task[1].startswith("file") else 70001):
            large(ctx, n, task[1])
    elif task[0] == "spell":
        for j, k in product(range(len(SPELL)), repeat=2):
            spelled(ctx, [[SPELL[task[1]], SPELL[j], SPELL[k]]])
    elif task[0] == "named":
        named(ctx, task[1])
    elif task[0] == "stale":
        stale(ctx, task[1])
    elif task[0] == "many":
        for k in range(4):
            bodies(ctx, [(i * i + i // 3 + k) % 4 for i in range(task[1])])
    elif task[0] == "digits":
        digits(ctx, task[1])
    elif task[0] == "values":
        for n in (1, 2):
            for d in product(VALUES, repeat=n):
                for c in product(VALUES, repeat=n):
                    values(ctx, list(d), list(c))
    elif task[0] == "hollow":
        for e in HOLLOW:
            for pos in product((False, True), repeat=3):
                if any(pos):
                    for k, who in enumerate(("dataset", "mass", "observer")):
                        hollow(ctx, [e if h else [[0, 2, 1], [-1.5, 0, 0.5], [5, 6, 1]][(i + k) % 3] for i, h in enumerate(pos)], who)
    elif task[0] == "bad":
        for pos in range(4):
            for b in BADROW:
                badfile(ctx, pos, b)
            for k in range(len(BADPOINTS)):
                badlist(ctx, pos, k)
    elif task[0] == "grid":
        for b, c in product(RANGES[: task[2]], repeat=2):
            choose(ctx, None, None, (RANGES[task[1]], b, c), "observer" if len(axis(b)) % 2 else "dataset")
    elif task[0] == "two":
        for a in CH[task[1] : task[1] + 8]:
            for b in CH:
                choose(ctx, *a, "dataset")
                choose(ctx, *b, "dataset")
    else:
        for s in product(range(4), repeat=task[1]):
            bodies(ctx, s)


def run_case(case, ctx):
    files()
    if "choose" in case:
        choose(ctx, *case["choose"])
    elif "spelled" in case:
        spelled(ctx, case["spelled"])
    elif "named" in case:
        named(ctx, case["named"])
    elif "stale" in case:
        stale(ctx, case["stale"])
    elif "digits" in case:
        digits(ctx, case["digits"])
    elif "large" in case:
        large(ctx, *case["large"])
    elif "values" in case:
        values(ctx, *case["values"])
    elif "hollow" in case:
        hollow(ctx, *case["hollow"])
    elif "badfile" in case:
        badfile(ctx, *case["badfile"])
    elif "badlist" in case:
        badlist(ctx, *case["badlist"])
    else:
        bodies(ctx, case["bodies"])
