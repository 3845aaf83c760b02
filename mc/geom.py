"""Finite universes of bodies, frames and observation points, and the access to the
implementation's field API.  Everything here is deterministic enumeration."""
import os
from fractions import Fraction as Fr
from itertools import combinations, permutations, product

import numpy as np

from refmodel import Hull, LD

EPS = 2.220446049250313e-16

# --- bodies -----------------------------------------------------------------
CUBE8 = list(product((0, 2), repeat=3))
LAT27 = list(product((0, 1, 2), repeat=3))
SYM48 = [(p, s) for p in permutations(range(3)) for s in product((1, -1), repeat=3)]


def sym_apply(g, pt, c=2):
    """signed permutation about the centre of [0,c]^3 (keeps the lattice)"""
    p, s = g
    q = [pt[p[i]] for i in range(3)]
    return tuple(q[i] if s[i] > 0 else c - q[i] for i in range(3))


def _vol6(a, b, c, d):
    u = [b[i] - a[i] for i in range(3)]
    v = [c[i] - a[i] for i in range(3)]
    w = [d[i] - a[i] for i in range(3)]
    return (
        u[0] * (v[1] * w[2] - v[2] * w[1])
        - u[1] * (v[0] * w[2] - v[2] * w[0])
        + u[2] * (v[0] * w[1] - v[1] * w[0])
    )


def nondegenerate(pts):
    return any(_vol6(*q) for q in combinations(pts, 4))


def subsets(universe, k):
    """all non-degenerate k-subsets"""
    return [c for c in combinations(universe, k) if nondegenerate(c)]


def mod_symmetry(bodies, c=2):
    """one representative of each class under the 48 symmetries of the lattice cube"""
    seen, out = set(), []
    for b in bodies:
        fb = tuple(sorted(b))
        if fb in seen:
            continue
        out.append(fb)
        for g in SYM48:
            seen.add(tuple(sorted(sym_apply(g, p, c) for p in b)))
    return out


def cube_bodies():
    """all non-degenerate subsets of the corners of a cube"""
    return [c for k in range(4, 9) for c in subsets(CUBE8, k)]


def large_bodies():
    """bodies with hundreds of faces"""
    out = {}
    for r2 in (101, 314):
        out["sphere%d" % r2] = [p for p in product(range(-18, 19), repeat=3) if p[0] ** 2 + p[1] ** 2 + p[2] ** 2 == r2]
    # a convex cap of a regular grid (a smooth hill) on a flat base
    out["hill"] = [(x, y, 80 - (x - 6) ** 2 - (y - 6) ** 2) for x in range(0, 13, 1) for y in range(0, 13, 1)] + [(x, y, 0) for x in (0, 12) for y in (0, 12)]
    return {k: [tuple(float(c) for c in p) for p in v] for k, v in out.items()}


def special_bodies():
    """named bodies that the lattice subsets do not contain (exact small rationals)"""
    out = {}
    out["octahedron"] = [(2, 0, 0), (-2, 0, 0), (0, 2, 0), (0, -2, 0), (0, 0, 2), (0, 0, -2)]
    out["slab"] = [(x, y, z) for x in (0, 16) for y in (0, 8) for z in (0, 0.125)]
    out["needle"] = [(0, 0, 0), (0.25, 0, 0), (0, 0.25, 0), (0.125, 0.0625, 32)]
    out["wedge"] = [(0, 0, 0), (4, 0, 0), (4, 3, 0), (0, 3, 0), (0, 0, 2), (4, 0, 2)]
    out["prism6"] = [(x, y, z) for z in (0, 3) for x, y in ((2, 0), (1, 2), (-1, 2), (-2, 0), (-1, -2), (1, -2))]
    circ = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
    out["pyramid12"] = [(x, y, 0) for x, y in circ] + [(1, 1, 4)]
    out["bipyramid12"] = [(x, y, 0) for x, y in circ] + [(0, 0, 4), (1, -1, -3)]
    # integer points of the sphere |p|^2 = 41 in general position-ish: many vertices, irregular faces
    sph = [p for p in product(range(-6, 7), repeat=3) if p[0] ** 2 + p[1] ** 2 + p[2] ** 2 == 41]
    out["sphere41"] = [p for i, p in enumerate(sph) if i % 3 == 0]
    # a coarse topographic block: flat base, irregular top
    top = {(0, 0): 3, (2, 0): 4, (4, 0): 3.5, (0, 2): 4, (2, 2): 5, (4, 2): 4.25, (0, 4): 3, (2, 4): 4.125, (4, 4): 3.25}
    out["block"] = [(x, y, 0) for x in (0, 4) for y in (0, 4)] + [(x, y, h) for (x, y), h in top.items()]
    # a house, a frustum, a body with an obtuse dihedral and an almost flat roof
    out["frustum"] = [(-3, -3, 0), (3, -3, 0), (3, 3, 0), (-3, 3, 0), (-1, -1, 2), (1, -1, 2), (1, 1, 2), (-1, 1, 2)]
    out["flatroof"] = [(0, 0, 0), (8, 0, 0), (8, 8, 0), (0, 8, 0), (4, 4, 0.0625)]
    # corner that no axis plane of symmetry passes through, negative coordinates only
    out["negtetra"] = [(-7, -3, -2), (-1, -5, -3), (-4, -9, -1), (-3, -4, -8)]
    # lattice points on edges and in faces, and interior points
    out["lat27"] = LAT27
    out["edgepts"] = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2), (0, 1, 1), (0.5, 0.5, 0.5)]
    return {k: [tuple(float(c) for c in p) for p in v] for k, v in out.items()}


def fine_bodies():
    """bodies with features much smaller than themselves: a blister on a face, a cut corner,
    two close vertices.  Their facets are exact; their field is ill-conditioned nearby, so
    only the facets (and the field in the exact frame, away from them) are decided."""
    out = {}
    out["blister"] = CUBE8 + [(1, 1, 2 + 2.0**-20)]
    out["chamfer"] = [p for p in CUBE8 if p != (2, 2, 2)] + [(2 - 2.0**-10, 2, 2), (2, 2 - 2.0**-10, 2), (2, 2, 2 - 2.0**-10)]
    out["close"] = [(0, 0, 0), (4, 0, 0), (0, 4, 0), (0, 0, 4), (2.0**-14, 2.0**-15, 4 + 2.0**-16)]
    return {k: [tuple(float(c) for c in p) for p in v] for k, v in out.items()}


# --- frames -----------------------------------------------------------------
def _rodrigues(axis, deg):
    a = np.array(axis, dtype=LD)
    a = a / np.sqrt((a * a).sum())
    t = LD(deg) * LD("3.14159265358979323846") / 180
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]], dtype=LD)
    return np.eye(3, dtype=LD) + np.sin(t) * K + (1 - np.cos(t)) * (K @ K)


ROT = {
    "id": np.eye(3, dtype=LD),
    "xy": np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]], dtype=LD),
    "cyc": np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]], dtype=LD),
    "mir": np.array([[-1, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=LD),
    "r3": np.array([[2, -1, 2], [2, 2, -1], [-1, 2, 2]], dtype=LD) / LD(3),
    "r7": np.array([[2, 3, 6], [3, -6, 2], [6, 2, -3]], dtype=LD) / LD(7),
    "z30": _rodrigues((0, 0, 1), 30),
    "g77": _rodrigues((1, -2, 3), 77.7),
    "tiny": _rodrigues((1, 1, -1), 0.001),
}


class Frame:
    """p -> scale * (R p) + t ; evaluated in long double, rounded once to double"""

    def __init__(self, name, rot="id", scale=1.0, t=(0, 0, 0)):
        self.name, self.rot, self.scale, self.t = name, rot, float(scale), tuple(float(x) for x in t)
        self.R = ROT[rot]

    def pts(self, P):
        P = np.asarray(P, dtype=LD).reshape(-1, 3)
        Q = LD(self.scale) * (P @ self.R.T) + np.array(self.t, dtype=LD)
        return np.array(Q, dtype=np.float64)

    @property
    def exact(self):
        return self.rot in ("id", "xy", "cyc", "mir") and self.t == (0, 0, 0) and np.log2(self.scale) % 1 == 0


FRAMES = {
    f.name: f
    for f in [
        Frame("id"),
        Frame("half", scale=0.5),
        Frame("xy", "xy"),
        Frame("cyc", "cyc"),
        Frame("mir", "mir"),
        Frame("r3", "r3"),
        Frame("r7", "r7"),
        Frame("g77", "g77"),
        Frame("z30", "z30"),
        Frame("tiny", "tiny"),
        Frame("mm", "id", 1e-3),
        Frame("um", "r3", 1e-6),
        Frame("km", "g77", 1e3),
        Frame("Mm", "r7", 1e6),
        Frame("shift", "id", 1.0, (1000.0, -2000.0, 512.0)),
        Frame("ecef10", "id", 5.0, (4198944.0, 174747.0, 4781887.0)),
        Frame("ecef10r", "g77", 5.0, (4198944.0, -174747.0, -4781887.0)),
        Frame("ecefkm", "z30", 1e3, (-2694045.0, -4266368.0, 3888310.0)),
        Frame("ecef100m", "r3", 100.0, (0.0, 6378137.0, 0.0)),
    ]
}


class Body:
    """a lattice body seen in a frame: exact topology, floats given to the implementation"""

    def __init__(self, pts, frame):
        self.lat = [tuple(p) for p in pts]
        self.frame = frame
        self.hull = Hull(self.lat)
        self.points = frame.pts(self.lat)
        # reference hull: lattice topology, coordinates of the frame
        uniq = [tuple(float(Fr(c, self.hull.den)) for c in p) for p in self.hull.pts]
        self.h2 = Hull.__new__(Hull)
        self.h2.P = np.array(frame.pts(uniq), dtype=LD)
        self.h2.tris = self.hull.tris
        self.h2.normals = self.hull.normals @ frame.R.T
        if np.linalg.det(np.array(frame.R, dtype=float)) < 0:
            # reflection: the normals stay outward (R n), the vertex order reverses
            self.h2.tris = self.hull.tris[:, ::-1]
        v = self.h2.P[self.hull.vertices]
        self.size = float(np.max(np.ptp(np.array(v, dtype=float), axis=0)))
        self.centre = np.array(v.mean(axis=0), dtype=float)
        self.nfaces = len(self.hull.tris)
        # rounding of the coordinates themselves: moves the planes of the body
        self.noise = 8 * EPS * float(np.max(np.abs(self.points)))
        # thinness: the field is computed from faces of a body this thick
        self.volume = float(self.hull.volume) * frame.scale**3

    def field(self, obs):
        return self.h2.field(obs)

    def dist(self, obs):
        """D: distance from the centre"""
        return np.linalg.norm(np.asarray(obs, dtype=float) - self.centre, axis=1)

    def edge_dist(self, obs):
        """distance from each observation point to the nearest edge segment or face diagonal"""
        O = np.asarray(obs, dtype=float)
        best = np.full(len(O), np.inf)
        P = np.array(self.h2.P, dtype=float)
        for nv, poly in self.hull.planes:
            for i, j in combinations(poly, 2):  # edges, and diagonals (triangulation)
                a, b = P[i], P[j]
                e = b - a
                t = np.clip(((O - a) @ e) / (e @ e), 0, 1)
                best = np.minimum(best, np.linalg.norm(O - a - t[:, None] * e, axis=1))
        return best


def lattice_obs(lo, hi, step=1):
    n = int(round((hi - lo) / step))
    v = [lo + step * i for i in range(n + 1)]
    return list(product(v, repeat=3))


DELTAS = (1e-2, 1e-4, 1e-6, 1e-8)
EDGE_DELTAS = (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9)


def near_obs(hull):
    """points on, and just off, the faces, edges, vertices, face planes and edge lines.
    Returns [(lattice coordinates (float), kind)]; kind: 'in'/'out' are off the boundary,
    'bd' on it (to rounding)."""
    out = []
    P = [np.array([float(Fr(c, hull.den)) for c in p]) for p in hull.pts]
    cen = np.mean([P[v] for v in hull.vertices], axis=0)
    for nv, poly in hull.planes:
        n = np.array([float(x) for x in nv])
        n /= np.linalg.norm(n)
        V = [P[i] for i in poly]
        c = np.mean(V, axis=0)
        mids = [(V[i] + V[(i + 1) % len(V)]) / 2 for i in range(len(V))]
        inner = [c] + [0.75 * c + 0.25 * V[0], 0.5 * c + 0.5 * mids[0]]
        for q in inner:
            out.append((q, "bd"))
            for d in DELTAS:
                out.append((q + d * n, "out"))
                out.append((q - d * n, "in"))
        # in the plane, outside the polygon
        for m in mids:
            q = m + 0.5 * (m - c)
            for d in (0.0,) + DELTAS:
                out.append((q + d * n, "out" if d else "plane"))
        for i in range(len(V)):
            a, b = V[i], V[(i + 1) % len(V)]
            out.append((0.25 * a + 0.75 * b, "bd"))
            out.append((a, "bd"))
            # in line with the edge
            for t in (1.25, 3.0, -0.5):
                q = a + t * (b - a)
                for d in (0.0,) + DELTAS:
                    out.append((q + d * n, "line"))
    return out


def edge_obs(hull):
    """points just off the edges and the vertices, on every side of them"""
    out = []
    P = [np.array([float(Fr(c, hull.den)) for c in p]) for p in hull.pts]
    cen = np.mean([P[v] for v in hull.vertices], axis=0)
    sides = {}
    norms = {}
    for nv, poly in hull.planes:
        n = np.array([float(x) for x in nv])
        n /= np.linalg.norm(n)
        for i in range(len(poly)):
            sides[(poly[i], poly[(i + 1) % len(poly)])] = n
            norms.setdefault(poly[i], []).append(n)
    for (i, j), n1 in sides.items():
        if i > j:
            continue
        n2 = sides[(j, i)]
        e = (P[j] - P[i]) / np.linalg.norm(P[j] - P[i])
        o1, o2 = np.cross(e, n1), np.cross(n2, e)  # in either plane, away from the face
        for t in (0.5, 0.125):
            q = (1 - t) * P[i] + t * P[j]
            inward = cen - q - np.dot(cen - q, e) * e
            for d in EDGE_DELTAS:
                for u in (n1, n2, o1, o2, (n1 + n2) / np.linalg.norm(n1 + n2)):
                    out.append((q + d * u, "out"))
                out.append((q + d * inward / np.linalg.norm(inward), "in"))
    # far off, a thin body may already be left behind
    out = [(q, c if c == "out" else {"in": "in", "out": "out"}.get(hull.classify(q)[0], "bd")) for q, c in out]
    for v, ns in norms.items():
        m = np.sum(ns, axis=0)
        for d in EDGE_DELTAS:
            for u in [m / np.linalg.norm(m), (P[v] - cen) / np.linalg.norm(P[v] - cen)] + ns:
                out.append((P[v] + d * u, "out"))
            if d < np.linalg.norm(cen - P[v]):
                out.append((P[v] + d * (cen - P[v]) / np.linalg.norm(cen - P[v]), "in"))
    return out


# --- access to the implementation ---------------------------------------------
def load():
    """import the implementation from /repo and compile its kernels once"""
    from loguru import logger

    logger.remove()
    import geec.polyhedron
    import geec.station

    P = geec.polyhedron.Polyhedron
    p = P(np.array([(0.0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]))
    with np.errstate(all="ignore"):
        for g in (False, True):
            p.get_gravity(np.array([3.0, 4.0, 5.0]), 1.0, 1.0, g)
    return geec


def Polyhedron(points):
    import geec.polyhedron

    return geec.polyhedron.Polyhedron(points)


GC = 6.67408e-11
RHO = 2670.0
