"""Reference model of the field of a homogeneous convex body.

Deliberately independent of the code under test *and* of its algorithm:

* the convex hull is computed by brute force in exact rational arithmetic
  (a double is a rational, so this is exact for every input we enumerate);
* the field is the closed form of Werner & Scheeres (1997) -- dyads, edge
  logarithms in the symmetric form ln((r1+r2+l)/(r1+r2-l)), solid angles by
  atan2 (Van Oosterom & Strackee) -- evaluated in 80-bit long double;
  GEEC implements Singh & Guptasarma (2001) with acos-based solid angles.

Units: SI for the kernel; `gravity` is returned in mGal, `tensor` in Eotvos.
"""
from fractions import Fraction as Fr
from itertools import combinations

import numpy as np

LD = np.longdouble


def _fr(p):
    return tuple(Fr(float(x)) for x in p)


def _sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def _cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def _dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


class Hull:
    """Exact convex hull of a small point set: faces as outward planes + polygons."""

    def __init__(self, points):
        pts = []
        for p in points:
            q = _fr(p)
            if q not in pts:
                pts.append(q)
        # exact integer coordinates (scale all by the common denominator): faster than Fractions
        den = 1
        for p in pts:
            for c in p:
                d = c.denominator
                if den % d:
                    den = max(den, d)  # denominators of doubles are powers of two
        self.den = den
        self.pts = [tuple(int(c * den) for c in p) for p in pts]
        self._build()

    def _build(self):
        P = self.pts
        n = len(P)
        planes = {}
        if n > 40:
            planes = self._proposed()
        for i, j, k in combinations(range(n), 3) if n <= 40 else ():
            nv = _cross(_sub(P[j], P[i]), _sub(P[k], P[i]))
            if nv == (0, 0, 0):
                continue
            pos = neg = False
            on = []
            for m in range(n):
                s = _dot(nv, _sub(P[m], P[i]))
                if s > 0:
                    pos = True
                elif s < 0:
                    neg = True
                else:
                    on.append(m)
                if pos and neg:
                    break
            if pos and neg:
                continue
            if not pos and not neg:
                self.degenerate = True
                self.planes = []
                return
            if pos:
                nv = tuple(-x for x in nv)
            key = tuple(on)
            if key not in planes:
                planes[key] = nv
        self.degenerate = not planes
        # each plane: outward normal (exact) and polygon (ccw seen from outside)
        self.planes = []
        verts = set()
        for on, nv in planes.items():
            poly = self._polygon(on, nv)
            verts.update(poly)
            self.planes.append((nv, poly))
        self.vertices = sorted(verts)
        if not self.degenerate:
            self._tri()

    def _proposed(self):
        """planes of a large point set: proposed by qhull, accepted only after an exact proof
        that every point is on their inner side and that the polygons close"""
        from math import gcd

        from scipy.spatial import ConvexHull

        P = self.pts
        hull = ConvexHull(np.array([[c / self.den for c in p] for p in P]))
        planes = {}
        for i, j, k in hull.simplices.tolist():
            nv = _cross(_sub(P[j], P[i]), _sub(P[k], P[i]))
            if nv == (0, 0, 0):
                continue
            s = [_dot(nv, _sub(p, P[i])) for p in P]
            if max(s) > 0:
                if min(s) < 0:
                    raise RuntimeError("a proposed plane cuts the point set")
                nv = tuple(-x for x in nv)
            g = gcd(gcd(nv[0], nv[1]), nv[2])
            on = tuple(m for m in range(len(P)) if s[m] == 0)
            planes[on] = tuple(x // g for x in nv)
        edges = set()
        for on, nv in planes.items():
            poly = self._polygon(on, nv)
            edges |= {(poly[a], poly[(a + 1) % len(poly)]) for a in range(len(poly))}
        if any((b, a) not in edges for a, b in edges):
            raise RuntimeError("the proposed planes do not close")
        return planes

    def _polygon(self, on, nv):
        """ordered extreme points of the coplanar set `on`, ccw about nv (gift wrapping, exact)"""
        P = self.pts
        start = min(on, key=lambda m: P[m])
        poly = [start]
        cur = start
        while True:
            nxt = None
            for m in on:
                if m == cur:
                    continue
                if nxt is None:
                    nxt = m
                    continue
                s = _dot(nv, _cross(_sub(P[nxt], P[cur]), _sub(P[m], P[cur])))
                if s < 0:
                    nxt = m
                elif s == 0:
                    d1 = _sub(P[nxt], P[cur])
                    d2 = _sub(P[m], P[cur])
                    if _dot(d2, d2) > _dot(d1, d1):
                        nxt = m
            if nxt == start:
                break
            poly.append(nxt)
            cur = nxt
            if len(poly) > len(on):
                raise RuntimeError("gift wrapping did not close")
        return poly

    def _tri(self):
        P = np.array([[LD(c) / LD(self.den) for c in p] for p in self.pts], dtype=LD)
        self.P = P
        tris = []
        normals = []
        v6 = 0
        for nv, poly in self.planes:
            nf = np.array([LD(x) for x in nv], dtype=LD)
            nf = nf / np.sqrt((nf * nf).sum())
            for a in range(1, len(poly) - 1):
                t = (poly[0], poly[a], poly[a + 1])
                tris.append(t)
                normals.append(nf)
                v6 += _dot(self.pts[t[0]], _cross(self.pts[t[1]], self.pts[t[2]]))
        self.tris = np.array(tris)
        self.normals = np.array(normals, dtype=LD)
        self.volume = Fr(v6, 6 * self.den**3)
        # area of each plane
        self.area = {}

    # -- exact classification of an observation point -------------------------
    def classify(self, obs):
        """'in', 'out' or one of 'face', 'edge', 'vertex' (boundary); plus flags:
        coplanar (on the plane of some face), collinear (on the line of some edge)"""
        o = [Fr(float(x)) * self.den for x in obs]
        P = self.pts
        inside = True
        zero = 0
        outside = False
        copl = False
        col = False
        for nv, poly in self.planes:
            s = _dot(nv, _sub(o, P[poly[0]]))
            if s > 0:
                outside = True
            if s == 0:
                copl = True
                zero += 1
                for a in range(len(poly)):
                    p, q = P[poly[a]], P[poly[(a + 1) % len(poly)]]
                    if _cross(_sub(q, p), _sub(o, p)) == (0, 0, 0):
                        col = True
            if s >= 0:
                inside = False
        if outside:
            w = "out"
        elif inside:
            w = "in"
        else:
            if any(tuple(o) == P[v] for v in self.vertices):
                w = "vertex"
            elif col:
                w = "edge"
            else:
                w = "face"
        return w, copl, col

    # -- field --------------------------------------------------------------
    def field(self, obs):
        """G (mGal per unit density*Gc) and T (E per unit density*Gc) at obs (n,3).

        T is only meaningful off the boundary of the body.
        """
        O = np.atleast_2d(np.asarray(obs, dtype=LD))
        n = len(O)
        g = np.zeros((n, 3), dtype=LD)
        T = np.zeros((n, 3, 3), dtype=LD)
        for t, nf in zip(self.tris, self.normals):
            R = [self.P[t[i]] - O for i in range(3)]
            r = [np.sqrt((x * x).sum(1)) for x in R]
            num = (R[0] * np.cross(R[1], R[2])).sum(1)
            den = (
                r[0] * r[1] * r[2]
                + r[0] * (R[1] * R[2]).sum(1)
                + r[1] * (R[2] * R[0]).sum(1)
                + r[2] * (R[0] * R[1]).sum(1)
            )
            w = 2 * np.arctan2(num, den)
            h = (R[0] * nf).sum(1)
            acc = h * w
            vec = -np.outer(w, nf)
            for i in range(3):
                a, b = self.P[t[i]], self.P[t[(i + 1) % 3]]
                e = b - a
                l = np.sqrt((e * e).sum())
                ne = np.cross(e / l, nf)  # outward in-plane edge normal
                s = r[i] + r[(i + 1) % 3]
                # d = s - l, without cancellation close to the edge
                dot = (R[i] * R[(i + 1) % 3]).sum(1)
                rr = r[i] * r[(i + 1) % 3]
                c = np.cross(R[i], np.broadcast_to(e, R[i].shape))
                near = dot < 0
                d = 2 * np.where(near, (c * c).sum(1) / np.where(near, rr - dot, LD(1)), rr + dot) / (s + l)
                # where the point lies on the segment the log is infinite; its
                # coefficient in g is zero there, and T is not used
                on = d <= 0
                d = np.where(on, LD(1), d)
                L = np.where(on, LD(0), np.log((s + l) / d))
                acc = acc - (R[i] @ ne) * L
                vec = vec + np.outer(L, ne)
            g += acc[:, None] * nf
            T += nf[None, :, None] * vec[:, None, :]
        return (g * LD(1e5), T * LD(1e9))
