"""C03: the body built from any point cloud is the closed, outward-oriented surface of
its convex hull."""
from fractions import Fraction as Fr
from itertools import combinations, permutations

import numpy as np

import geom
from field import named, tolerances
from geom import EPS, FRAMES, GC, RHO, Body
from refmodel import Hull

ID = "C03"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "point clouds: all corner subsets of a cube; all 4-, 5-, 6-subsets of {0,1,2}^3 modulo its 48"
    " symmetries; every insertion of one duplicate, mid-edge, in-face or interior point into the cube subsets'"
    " representatives; all 24 orders of tetrahedra, all 120 orders of 5-point bodies; 14 special bodies, 3 with features 1e-3 to 1e-6 of their size, 3 bodies of 332 to 620 faces; each"
    " representative in 19 frames; 10 memory layouts / dtypes; the representatives with up to 19 683 (a cube: 68 921) lattice points inside, corners first, last or spread; the representatives with up to 343 lattice points in them and on their faces and edges, in 19 frames; for each body the surface, and the field at two points",
    "thorough": "as quick with all 4- and 5-subsets (no symmetry reduction), 7-subsets modulo symmetry,"
    " insertions of two extra points, all frames",
}
ASSUMPTIONS = ["oracle: exact rational brute-force hull (planes, extreme points, volume)"]

CROWD = ("first", "last", "spread")
LAYOUTS = ("C", "F", "strided", "reversed", "int", "int16", "uint8", "float32", "big-endian", "readonly")
NUMPY = {"int": np.int64, "int16": np.int16, "uint8": np.uint8, "float32": np.float32, "big-endian": ">f8"}


def setup():
    geom.load()


def layout(a, how):
    a = np.array(a, dtype=float)
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros((2 * len(a), 5))
        b[::2, 1:4] = a
        return b[::2, 1:4]
    if how == "reversed":
        return np.array(a[::-1, ::-1])[::-1, ::-1]
    if how in NUMPY:
        return a.astype(NUMPY[how])
    if how == "readonly":
        a.setflags(write=False)
        return a
    return a


def NUMPY_(lay, c):
    with np.errstate(all="ignore"):
        return np.array(c).astype(NUMPY[lay])


def tasks(tier):
    big = tier == "thorough"
    T = []
    cube = geom.cube_bodies()
    reps = geom.mod_symmetry(cube)
    spec = geom.special_bodies()

    def chunk(kind, bodies, n, *rest):
        for i in range(0, len(bodies), n):
            T.append((kind, tuple(bodies[i : i + n])) + rest)

    for name in spec:
        for f in FRAMES:
            T.append(("set", (name,), f, "C"))
    for name in geom.fine_bodies():
        for f in ("id", "half", "xy", "cyc", "mir", "r3", "g77", "mm"):
            T.append(("set", (name,), f, "C"))
    for name in geom.large_bodies():
        for f in ("id", "g77", "ecefkm") if not big else FRAMES:
            T.append(("set", (name,), f, "C"))
    chunk("set", cube, 6, "id", "C")
    for k in (4, 5) if big else ():
        chunk("set", geom.subsets(geom.LAT27, k), 60, "id", "C")
    for k in (4, 5, 6) + ((7,) if big else ()):
        chunk("lat", ("classes",), 1, k)
    for f in FRAMES:
        chunk("set", reps, 6, f, "C")
    for lay in LAYOUTS:
        chunk("set", reps + list(n for n in spec if n not in ("slab",)), 6, "id", lay)
    chunk("extra", reps, 1, 2 if big else 1)
    # crowds: thousands of points inside the body, its corners first, last or spread among them
    for b in reps:
        for f in ("id", "g77") if not big else ("id", "g77", "mm", "km", "ecef100m"):
            for where in CROWD:
                T.append(("crowd", (b,), f, where, 14 if not big else 20))
        for f in FRAMES:
            for n in (2, 3) if not big else (2, 3, 4, 5):
                T.append(("crowd", (b,), f, "surface", n))
    cube = max(reps, key=len)
    for where in CROWD:
        T.append(("crowd", (cube,), "id", where, 21))
    tets = geom.mod_symmetry(geom.subsets(geom.LAT27, 4))
    chunk("perm", [t for i, t in enumerate(tets) if big or i % 8 == 0], 10)
    chunk("perm", [b for b in reps if len(b) == 5], 1)
    # symmetry classes of lattice subsets are computed here once, then split
    out = []
    for t in T:
        if t[0] == "lat":
            cl = geom.mod_symmetry(geom.subsets(geom.LAT27, t[2])) if t[2] < 6 else _classes(t[2])
            for i in range(0, len(cl), 40):
                out.append(("set", tuple(cl[i : i + 40]), "id", "C"))
        else:
            out.append(t)
    return out


def _classes(k):
    """representatives of the k-subsets of {0,1,2}^3 modulo symmetry, by orderly extension on
    bit masks (a class representative is the smallest mask of its orbit)"""
    pts = geom.LAT27
    idx = {p: i for i, p in enumerate(pts)}
    perms = np.array([[idx[geom.sym_apply(g, p)] for p in pts] for g in geom.SYM48])
    level = {1}
    level = set()
    for i in range(27):
        level.add(min(1 << int(q[i]) for q in perms))
    for _ in range(k - 1):
        nxt = set()
        for m in level:
            for j in range(27):
                if not m >> j & 1:
                    mm = m | 1 << j
                    bits = [b for b in range(27) if mm >> b & 1]
                    img = np.bitwise_or.reduce(np.left_shift(1, perms[:, bits]), axis=1)
                    nxt.add(int(img.min()))
        level = nxt
    out = []
    for m in sorted(level):
        b = tuple(pts[i] for i in range(27) if m >> i & 1)
        if geom.nondegenerate(b):
            out.append(b)
    return out


def run_task(task, ctx):
    kind = task[0]
    if kind == "set":
        for b in task[1]:
            pts = named(b) if isinstance(b, str) else b
            one(ctx, [tuple(map(float, p)) for p in pts], task[2], task[3])
    elif kind == "extra":
        for b in task[1]:
            b = [tuple(map(float, p)) for p in b]
            cand = sorted(set(b) | {tuple((np.array(p) + np.array(q)) / 2) for p, q in combinations(b, 2)}
                          | {tuple(np.mean(np.array(t), axis=0)) for t in combinations(b, 4)}
                          | {tuple(np.array(b[0]) * 0.5 + np.array(b[1]) * 0.25 + np.array(b[2]) * 0.25)})
            for n in range(1, task[2] + 1):
                for extra in combinations(cand, n):
                    one(ctx, b + list(extra), "id", "C")
                    one(ctx, list(extra) + b, "r7" if n == 1 else "id", "C")
    elif kind == "crowd":
        for b in task[1]:
            one(ctx, [tuple(map(float, p)) for p in b], task[2], "C", task[3:])
    elif kind == "perm":
        for b in task[1]:
            b = [tuple(map(float, p)) for p in b]
            for o in permutations(b):
                one(ctx, list(o), "id", "C")


def crowd(body, where, n):
    """the corners of the body (scaled n times) among all lattice points strictly inside"""
    corners = [tuple(n * c for c in p) for p in body.lat]
    lo, hi = np.min(corners, axis=0), np.max(corners, axis=0)
    g = np.stack(np.meshgrid(*(np.arange(lo[k], hi[k] + 1) for k in range(3)), indexing="ij"), axis=-1).reshape(-1, 3)
    keep = np.ones(len(g), dtype=bool)
    for nv, poly in body.hull.planes:
        p0 = np.array([float(x) * n / body.hull.den for x in body.hull.pts[poly[0]]])
        h = (g - p0) @ np.array([float(x) for x in nv])
        keep &= h <= 0 if where == "surface" else h < 0
    inside = [tuple(map(float, p)) for p in g[keep]]
    if where == "surface":  # and all lattice points on the faces and edges, corners last
        inside = [p for p in inside if p not in set(map(tuple, corners))]
    if where == "first":
        return corners + inside
    if where in ("last", "surface"):
        return inside + corners
    out, k = [], len(inside) // len(corners) | 1
    for i, c in enumerate(corners):
        out += inside[i * k : (i + 1) * k] + [c]
    return out + inside[len(corners) * k :]


def one(ctx, lat, fname, lay, fill=None):
    if lay in NUMPY and not all(float(NUMPY_(lay, c)) == c for p in lat for c in p):
        return  # not representable
    frame = FRAMES[fname]
    case = {"lattice": lat, "frame": fname, "layout": lay}
    if fill:
        case["crowd"] = fill
    ctx.at(case)
    if fill:
        cloud = crowd(Body(lat, frame), *fill)
        body = Body([tuple(fill[1] * c for c in p) for p in lat], frame)
        body.lat, body.points = cloud, frame.pts(cloud)
        body.noise = max(body.noise, 8 * EPS * float(np.max(np.abs(body.points))))
        ctx.count("largest_cloud_%d" % (len(cloud) // 500 * 500))
    else:
        body = Body(lat, frame)
    pts = layout(body.points, lay)
    keep = pts.copy()
    with np.errstate(all="ignore"):
        poly = geom.Polyhedron(pts)
    ctx.states += 1
    ctx.traces += 1
    check(ctx, poly, body, keep, pts, not fill and (fname == "id" or frame.exact))
    # and the field is that of the hull
    obs = body.centre + body.size * np.array([[0.7, 1.1, 0.9], [-1.3, 0.25, 0.125]])
    G, _ = body.field(obs)
    tg = tolerances(body, obs, edges=False)[0]
    for o, want, tol in zip(obs, G, tg):
        g = np.asarray(poly.get_gravity(o, RHO, GC, False)[0], dtype=float)
        if not np.max(np.abs(g - want * RHO * GC)) <= tol * RHO * GC:
            ctx.fail(f"gravity at {o.tolist()} is {g.tolist()}, that of the convex hull is {[float(x) for x in want * RHO * GC]}")
        ctx.transitions += 1
    ctx.sample(case)


def check(ctx, poly, body, keep, pts, exact):
    """only the corners and normals of the faces are needed; every other documented attribute
    is checked where it exists"""
    F = list(poly.faces)
    if not np.array_equal(pts, keep):
        ctx.fail("building the body changed the caller's array")
    A = np.asarray(keep, dtype=float)
    L, noise = body.size, max(body.noise, 1e-15 * body.size)
    canon = {}  # coordinates -> distinct point
    for i, p in enumerate(A):
        canon.setdefault(tuple(p), i)
    if getattr(poly, "nfaces", len(F)) != len(F):
        ctx.fail(f"nfaces is {poly.nfaces}, there are {len(F)} faces")
    if hasattr(poly, "points"):
        held = {tuple(map(float, p)) for p in poly.points}
        if not held <= set(canon):
            ctx.fail("the body holds points that it was not given")
    directed = {}
    used = set()
    corners = []
    vol = 0.0
    c0 = A.mean(axis=0)
    for fi, f in enumerate(F):
        ctx.transitions += 1
        P = np.asarray(f.points, dtype=float)
        if P.ndim != 2 or P.shape[1] != 3 or len(P) < 3:
            ctx.fail(f"face {fi} is no polygon: {P}")
        s = [canon.get(tuple(p)) for p in P]
        if None in s:
            ctx.fail(f"a corner of face {fi} is none of the given points: {P}")
        corners.append(s)
        if hasattr(f, "simplex") and hasattr(poly, "points"):
            if not np.array_equal(np.asarray(poly.points, dtype=float)[list(map(int, f.simplex))], P):
                ctx.fail(f"points of face {fi} are not the points its indices name")
        un = np.asarray(f.un, dtype=float)
        crs = [np.cross(P[k] - P[0], P[k + 1] - P[0]) for k in range(1, len(P) - 1)]
        cr = np.sum(crs, axis=0)
        area = np.linalg.norm(cr)
        if not np.all(np.isfinite(un)) or not abs(np.linalg.norm(un) - 1) < 1e-12:
            ctx.fail(f"normal of face {fi} is not a unit vector: {un}")
        if not area > 0:
            ctx.fail(f"face {fi} is degenerate")
        longest = max(np.linalg.norm(P[i] - P[j]) for i in range(len(P)) for j in range(i))
        tolu = 1e-11 + 8 * EPS * np.max(np.abs(P)) * longest / area
        if np.linalg.norm(un - cr / area) > tolu:
            ctx.fail(f"face {fi} is not counterclockwise about its normal {un}")
        # outward and supporting: no point of the cloud beyond the plane of the face
        h = (A - P[0]) @ un
        # a sliver face amplifies the rounding of its corners
        lim = 1e-11 * L + noise * (4 + 4 * L * longest / area)
        if exact:
            lat = [tuple(map(Fr, body.lat[i])) for i in s]
            u = [lat[1][k] - lat[0][k] for k in range(3)]
            w = [lat[2][k] - lat[0][k] for k in range(3)]
            nv = (u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0])
            sg = 1 if np.dot([float(x) for x in nv] @ np.array(body.frame.R, float).T, un) > 0 else -1
            for q in body.lat:
                if sg * sum(nv[k] * (Fr(q[k]) - lat[0][k]) for k in range(3)) > 0:
                    ctx.fail(f"point {q} is outside face {fi}")
        elif np.max(h) > lim:
            ctx.fail(f"a point of the cloud is {np.max(h):.3g} outside face {fi} (limit {lim:.3g})")
        if np.max(np.abs(h[s])) > lim:
            ctx.fail(f"face {fi} is not plane")
        if not np.min(h) < -1e-6 * body.volume / L**2:
            ctx.fail(f"face {fi}: the body is not on the inner side")
        n = len(s)
        for attr in ("npoints", "nedges"):
            if getattr(f, attr, n) != n:
                ctx.fail(f"{attr} of face {fi} is {getattr(f, attr)}, it has {n} corners")
        E = list(getattr(f, "edges", []))
        if E and len(E) != n:
            ctx.fail(f"face {fi} has {n} corners and {len(E)} edges")
        for k in range(n):
            a, b = s[k], s[(k + 1) % n]
            key = (a, b)
            if key in directed:
                ctx.fail(f"two faces share the directed edge {key}: the surface is not oriented")
            directed[key] = fi
        seen = set()
        for e in E:
            st, en = np.asarray(e.start, float), np.asarray(e.end, float)
            key = (canon.get(tuple(st)), canon.get(tuple(en)))
            if directed.get(key) != fi or key in seen:
                ctx.fail(f"the edges of face {fi} are not its sides")
            seen.add(key)
            if hasattr(e, "points") and not np.array_equal(np.asarray(e.points, float), np.array([st, en])):
                ctx.fail(f"face {fi}: 'points' of an edge are not its ends")
            if hasattr(e, "vector") and np.max(np.abs(np.asarray(e.vector, float) - (en - st))) > 1e-12 * L:
                ctx.fail(f"face {fi}: wrong vector of an edge")
            if hasattr(e, "length") and abs(e.length - np.linalg.norm(en - st)) > 1e-12 * L:
                ctx.fail(f"face {fi}: wrong length of an edge")
        used.update(s)
        vol += float(np.dot(P[0] - c0, cr)) / 6
    for (a, b), fi in directed.items():
        if (b, a) not in directed:
            ctx.fail(f"the surface is open at edge {(a, b)} of face {fi}")
    for fi, f in enumerate(F):
        if hasattr(f, "neighbors"):
            got = sorted(int(x) for x in f.neighbors)
            s = corners[fi]
            want = sorted(directed[(s[(k + 1) % len(s)], s[k])] for k in range(len(s)))
            if got != want:
                ctx.fail(f"face {fi} claims neighbours {got}, its edges are shared with {want}")
    # every extreme point of the cloud is a vertex of the surface
    if exact:
        index = {tuple(p): i for i, p in reversed(list(enumerate(body.lat)))}
        uniq = {tuple(Fr(float(c)) * body.hull.den for c in p): i for p, i in index.items()}
        ext = {canon[tuple(A[uniq[tuple(Fr(x) for x in body.hull.pts[v])]])] for v in body.hull.vertices}
        if not ext <= used:
            ctx.fail(f"extreme points {sorted(ext - used)} are not vertices of the surface")
    vtol = 1e-11 * L**3 + 40 * noise * L * L
    ctx.err("volume", abs(vol - body.volume) / vtol)
    if not abs(vol - body.volume) <= vtol:
        ctx.fail(f"the surface encloses a volume of {vol}, the convex hull has {body.volume}")
    ctx.count("faces_%d" % len(F))
    ctx.outcome(len(F), len(used), round(body.volume, 9))


def run_case(case, ctx):
    one(ctx, [tuple(p) for p in case["lattice"]], case["frame"], case["layout"], tuple(case.get("crowd") or ()))
