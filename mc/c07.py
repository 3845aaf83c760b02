"""C07: what is not a solid body, a point or a body is rejected, never answered."""
from itertools import combinations

import numpy as np

import geom
from geom import FRAMES, GC, RHO

ID = "C07"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every flat subset of up to 6 points of {0,1,2}^3 modulo symmetry (coplanar, collinear, coincident, too"
    " few), with and without duplicates, 4 frames that keep them exactly flat; every point of every"
    " cube subset's representative replaced by each of 5 non-finite patterns; 40 wrong types and shapes of bodies,"
    " stations and lists of bodies; sheets, lines and heaps of 1 to 5000 points in 9 exact planes x 5 kinds of arrays; one"
    " non-finite coordinate at every position of clouds of up to 1000 points",
    "thorough": "as quick, no symmetry reduction up to 5 points, 7 points modulo symmetry",
}
ASSUMPTIONS = ["rejection is any exception, unless the documentation or the existing behaviour names its type"]


def setup():
    geom.load()


def rejected(ctx, fn, exc=Exception, what=""):
    ctx.transitions += 1
    ctx.traces += 1
    try:
        with np.errstate(all="ignore"):
            r = fn()
    except exc as e:
        ctx.count("rejected_" + type(e).__name__)
        ctx.outcome(what, type(e).__name__)
        return
    except Exception as e:
        ctx.fail(f"{what}: raised {type(e).__name__}, expected {exc.__name__}")
    ctx.fail(f"{what}: accepted (returned {type(r).__name__})")


FL = ("id", "half", "cyc", "shiftx")


def _pts(lat, f):
    a = np.array(lat, dtype=float).reshape(-1, 3)
    if f == "shiftx":
        return a * 4 + np.array([1024.0, -512.0, 4096.0])
    return FRAMES[f].pts(a) if len(a) else a


def tasks(tier):
    import c03

    big = tier == "thorough"
    T = []
    for k in range(1, 8 if big else 7):
        if big and k <= 5:
            sets = [c for c in combinations(geom.LAT27, k) if not geom.nondegenerate(c)]
        else:
            sets = _flat_classes(k)
        for i in range(0, len(sets), 50):
            T.append(("flat", tuple(sets[i : i + 50])))
    for pl in range(len(PLANES)):
        T.append(("sheet", pl, big))
    T.append(("nonfinite",))
    T.append(("one in many", big))
    T.append(("types",))
    return T


def _flat_classes(k):
    seen, out = set(), []
    idx = {p: i for i, p in enumerate(geom.LAT27)}
    perms = np.array([[idx[geom.sym_apply(g, p)] for p in geom.LAT27] for g in geom.SYM48])
    for c in combinations(range(27), k):
        m = sum(1 << i for i in c)
        if m in seen:
            continue
        pts = tuple(geom.LAT27[i] for i in c)
        if geom.nondegenerate(pts):
            continue
        for img in np.bitwise_or.reduce(np.left_shift(1, perms[:, list(c)]), axis=1):
            seen.add(int(img))
        out.append(pts)
    return out


def flat(ctx, lat, f, dup):
    pts = _pts(list(lat) + list(lat)[:dup], f)
    ctx.at({"flat": [list(p) for p in lat], "frame": f, "dup": dup})
    ctx.states += 1
    rejected(ctx, lambda: geom.Polyhedron(pts), what=f"{len(pts)} points in a plane")


# exact (integer) planes: origin and two directions
PLANES = [
    ((0, 0, 0), (1, 0, 0), (0, 1, 0)),
    ((0, 0, 7), (1, 0, 0), (0, 1, 0)),
    ((3, 0, 0), (0, 1, 0), (0, 0, 1)),
    ((0, -5, 0), (1, 0, 0), (0, 0, 2)),
    ((0, 0, 0), (1, 1, 0), (0, 0, 1)),
    ((0, 0, 0), (1, -1, 0), (0, 1, -1)),
    ((4096, -512, 1024), (2, -1, 0), (0, 1, -1)),
    ((0, 0, 0), (1, 0, 3), (0, 1, -2)),
    ((1, 2, 3), (3, 1, 2), (1, -4, 1)),
]
KINDS = {
    "float": lambda a: np.array(a, float),
    "int": lambda a: np.array(a, np.int64),
    "single": lambda a: np.array(a, np.float32),
    "fortran": lambda a: np.asfortranarray(np.array(a, float)),
    "strided": lambda a: np.repeat(np.array(a, float), 2, axis=0)[::2],
}


def sheet(ctx, plane, n, shape, kind):
    """n points that span no volume: in a plane, on a line, at one place"""
    ctx.at({"sheet": [plane, n, shape, kind]})
    ctx.states += 1
    o, u, v = (np.array(x) for x in PLANES[plane])
    k = np.arange(n)
    w = max(2, int(np.sqrt(n)))
    if shape == "plane":
        a = o + np.outer(k % w, u) + np.outer(k // w, v)
    elif shape == "line":
        a = o + np.outer((k * 7) % n, u + v)
    elif shape == "cross":
        a = o + np.outer(np.where(k % 2, k, 0), u) + np.outer(np.where(k % 2, 0, k), v)
    else:
        a = o + np.outer(k * 0, u)
    rejected(ctx, lambda: geom.Polyhedron(KINDS[kind](a)), what=f"{n} points ({shape}) that span no volume")


def many(ctx, n, at, value, coord):
    ctx.at({"many": [n, at, repr(value), coord]})
    ctx.states += 1
    k = np.arange(n)
    a = np.stack([k % 10, k // 10 % 10, k // 100 % 10 + (k % 3) / 4], axis=1).astype(float)
    a[at, coord] = value
    rejected(ctx, lambda: geom.Polyhedron(a), what=f"a non-finite coordinate among {n} points")


def run_task(task, ctx):
    if task[0] == "sheet":
        sizes = list(range(1, 70)) + [100, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1001, 2048, 5000]
        for n in sizes if not task[2] else sizes + [20000, 65537]:
            for shape in ("plane", "line", "heap", "cross"):
                for kind in KINDS if n < 24 or n in (1000, 5000) else ("float",):
                    sheet(ctx, task[1], n, shape, kind)
        return
    if task[0] == "one in many":
        for n in (8, 40, 101, 1000) + ((5000,) if task[1] else ()):
            for at in sorted(set(range(0, n, 1 if n < 200 else 13 if not task[1] else 3)) | {n - 1, n // 2}):
                for value in (np.nan, np.inf, -np.inf):
                    many(ctx, n, at, value, at % 3)
        return
    if task[0] == "flat":
        for lat in task[1]:
            for f in FL:
                flat(ctx, lat, f, 0)
            flat(ctx, lat, "id", 1)
            flat(ctx, lat, "id", len(lat))
        ctx.sample({"flat": task[1][0]})
    elif task[0] == "nonfinite":
        for b in geom.mod_symmetry(geom.cube_bodies()):
            for i in range(len(b)):
                for pat in ((np.nan,) * 3, (np.nan, None, None), (None, np.inf, None), (None, None, -np.inf), (np.inf, np.nan, None)):
                    a = np.array(b, dtype=float)
                    for k, v in enumerate(pat):
                        if v is not None:
                            a[i, k] = v
                    ctx.at({"nonfinite": a})
                    ctx.states += 1
                    rejected(ctx, lambda: geom.Polyhedron(a), what="a non-finite coordinate")
    else:
        types(ctx)


def types(ctx):
    import geec.station
    import geec.utils

    cube = [tuple(map(float, p)) for p in geom.CUBE8]
    S = geec.station.Station
    for what, v in (("list", cube), ("tuple", tuple(cube)), ("None", None), ("str", "cube"), ("dict", {}), ("int", 3)):
        ctx.at({"types": "body " + what})
        rejected(ctx, lambda: geom.Polyhedron(v), Exception, f"body from a {what}")
        ctx.at({"types": "station " + what})
        rejected(ctx, lambda: S(v if what not in ("list", "tuple") else [0.0, 1.0, 2.0]), Exception, f"station from a {what}")
    for what, a in (
        ("2-column", np.array(cube)[:, :2]),
        ("1-column", np.array(cube)[:, :1]),
        ("flat array", np.array(cube).ravel()),
        ("empty", np.zeros((0, 3))),
        ("3-dimensional", np.array(cube).reshape(2, 4, 3)),
        ("scalar", np.array(3.0)),
        ("4-column", np.hstack([np.array(cube), np.array(cube)[:, :1]])),
        ("words", np.array([["a", "b", "c"]] * 5)),
        ("objects", np.array([[None, None, None]] * 5)),
        ("no points", np.zeros((0,))),
        ("one point", np.zeros((1, 3))),
        ("6-column", np.hstack([np.array(cube), np.array(cube) + 1])),
        ("transposed", np.array(cube).T.copy()),
    ):
        ctx.at({"types": "body " + what})
        rejected(ctx, lambda: geom.Polyhedron(a), Exception, f"body from a {what} array")
    p = geom.Polyhedron(np.array(cube))
    for what, v in (("None", None), ("array", np.array(cube)), ("list of arrays", [np.array(cube)]), ("mixed", [p, None]),
                    ("mixed first", [1, p]), ("str", "p"), ("class", type(p)), ("nested", [[p]])):
        s = S(np.array([3.0, 4.0, 5.0]))
        ctx.at({"types": "bodies " + what})
        rejected(ctx, lambda: s.compute_gravity(v, RHO, GC, True), Exception, f"bodies given as {what}")
        if np.any(np.asarray(s.G) != 0) or np.any(np.asarray(s.T) != 0):
            ctx.fail(f"a rejected computation ({what}) changed the station")
    for shape in ((), (0,), (1,), (2,), (4,), (1, 1), (1, 3), (3, 1), (3, 3), (8, 3), (1, 3, 1), (2, 3)):
        bad = np.arange(np.prod(shape)).reshape(shape) * 1.5 + 4.0
        for g in (False, True):
            ctx.at({"types": f"obs {shape}"})
            rejected(ctx, lambda: p.get_gravity(bad, RHO, GC, g), Exception, f"observation point of shape {shape}")
            ctx.at({"types": f"station {shape}"})
            made = []

            def at_station():
                made.append(S(bad))
                made[0].compute_gravity([p, p], RHO, GC, g)

            rejected(ctx, at_station, Exception, f"station of shape {shape}")
            if made and (np.any(np.asarray(made[0].G) != 0) or np.any(np.asarray(made[0].T) != 0)):
                ctx.fail(f"a refused computation at a station of shape {shape} changed it")
    for bad in ((np.nan,) * 3, (np.nan, 1, 1), (1, np.inf, 1), (5, 6, -np.inf), (np.inf,) * 3, (1, 1, np.nan)):
        for g in (False, True):
            ctx.at({"types": f"obs {bad}"})
            ctx.transitions += 1
            try:
                with np.errstate(all="ignore"):
                    G = p.get_gravity(np.array(bad, dtype=float), RHO, GC, g)[0]
            except Exception:
                continue
            if np.any(np.isfinite(np.asarray(G, dtype=float))):
                ctx.fail(f"gravity at the non-finite point {bad} is {G}")
            for bodies in (p, [p], [p, p]):
                try:
                    s = S(np.array(bad, dtype=float))
                    with np.errstate(all="ignore"):
                        s.compute_gravity(bodies, RHO, GC, g)
                except Exception:
                    continue
                ctx.transitions += 1
                if np.any(np.isfinite(np.asarray(s.G, dtype=float))):
                    ctx.fail(f"gravity of a station at the non-finite point {bad} is {s.G}")
    for a, b in ((np.zeros(2), np.zeros(3)), (np.zeros(3), np.zeros(4))):
        ctx.at({"types": "cross product"})
        rejected(ctx, lambda: geec.utils.cross_product(a, b), Exception, "cross product of vectors that are not 3D")
    ctx.states += 1


def run_case(case, ctx):
    if "sheet" in case:
        sheet(ctx, *case["sheet"])
    elif "many" in case:
        n, at, value, coord = case["many"]
        many(ctx, n, at, float(value), coord)
    elif "flat" in case:
        flat(ctx, [tuple(p) for p in case["flat"]], case["frame"], case["dup"])
    elif "nonfinite" in case:
        a = np.array(case["nonfinite"], dtype=float)
        rejected(ctx, lambda: geom.Polyhedron(a), what="a non-finite coordinate")
    else:
        types(ctx)
