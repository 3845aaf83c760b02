"""Scenarios of `geec run`: configurations of bodies and observers, and what the result
must be, computed from the configuration alone with the reference model (extended
precision coordinates, exact hull, Werner & Scheeres field)."""
import csv
import io
import os

import numpy as np

import clienv
import crsenv
import geoidenv
import refcrs
from refcrs import AIRY, WGS84
from refmodel import Hull

CUSTOM = crsenv.CUSTOM
O_W, O_A = (11.5, 47.25, 600.0), (11.52, 47.2, 100.0)
O_E = (200.5, -33.0, 0.0)
SYS = {
    "WGS84": (("ellps", "wgs84"), ("ellps",) + WGS84),
    "AIRY": (("ellps", "airy"), ("ellps",) + AIRY),
    "AXES": (("ellps", None, CUSTOM), ("ellps",) + CUSTOM),
    "NULL": ((None, None), ("ellps",) + WGS84),
    "ENUW": (("enu", "wgs84", (None, None), O_W), ("enu",) + WGS84 + O_W),
    "ENUA": (("enu", "airy", (None, None), O_A), ("enu",) + AIRY + O_A),
    "ECEF": (("ecef",), ("ecef",)),
    "CART": (("cart",), ("cart",)),
}

# bodies, in metres (local, cart) or degrees and metres (geodetic)
_BOX = [(x, y, z) for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]
SHAPES = {
    "box": _BOX,
    "tet": [(-1, -1, -1), (1.5, -1, -1), (-1, 2, -1), (0, 0, 1)],
    "roof": _BOX + [(0, 0, 2.5), (0, 0, 0)],
}
CENTRE = {0: (11.5, 47.25, 300.0), 1: (11.56, 47.21, -2000.0), 2: (200.5, -33.0, 500.0), 3: (-159.46, -33.04, 0.0)}
RHO = (2670.0, -350.5, 1030, 3300.25, 0, 1500.0, 1e-3, 0.0)
GCS = (6.67408e-11, 6.6e-11, 6.67408e-11, 7.0e-11, 6.67408e-11, 0, 1.0, 0.0)

# (name, shape, place, rho/Gc index)
_geoid = {}


def undulation(d, lon, lat):
    if d in (None, "ellps"):
        return 0.0
    if d not in _geoid:
        import pygeodesy

        _geoid[d] = pygeodesy.GeoidKarney(geoidenv.grid_path({"egm84": "egm84-15.pgm", "egm96": "egm96-5.pgm", "egm2008": "egm2008-2_5.pgm"}[d]))
    if not -180 <= lon <= 180:
        lon = (lon + 180.0) % 360.0 - 180.0
    return float(_geoid[d].height(lat, lon))


def body_points(sys_, shape, place):
    s = np.array(SHAPES[shape], dtype=float)
    d = SYS[sys_][1]
    if d[0] == "cart":
        if place == "tiny":
            return s * np.array([0.5, 0.75, 0.5]) * 1e-6
        return s * np.array([0.5, 0.75, 0.5]) + np.array([(0, 0, 0), (3.0, 0.5, 0), (0.25, 0, -4.0), (-3, 1, 1)][place])
    if d[0] == "enu":
        return s * np.array([800.0, 600.0, 400.0]) + np.array([(0, 0, 0), (4000.0, -4500.0, -2500), (0, 250.0, -4000.0), (-3000, 1000, 1)][place])
    g = s * np.array([0.01, 0.007, 400.0]) + np.array(CENTRE[place])
    if d[0] == "ecef":
        return refcrs.physical(g, ("ellps",) + WGS84).astype(float)
    return g


def body_phys(sys_, pts, vd):
    d = SYS[sys_][1]
    p = np.array(pts, dtype=float)
    if d[0] == "ellps":
        for r in p:
            r[2] += undulation(vd, r[0], r[1])
    return refcrs.physical(p, d)


def mass_conf(sys_, pts, vd, k, file=None):
    a = SYS[sys_][0]
    return {
        "points": None if file else np.asarray(pts).tolist(),
        "file_path": file,
        "density": RHO[k],
        "gravity_constant": GCS[k],
        "crs": crsenv.crs_conf(*a, vdatum=vd) if len(a) < 4 else crsenv.crs_conf(a[0], a[1], a[2], a[3], vd),
    }


OBS = {
    "ellps": [(11.53, 47.25, 2500.0), (11.5, 47.25, 4000.0), (11.47, 47.28, 900.25), (200.55, -33.1, 3000.0), (-159.4, -32.9, 10.0)],
    "enu": [(0.0, 0.0, 3000.0), (5000.0, -250.0, 1500.0), (-7000.5, 8000.0, 10.0)],
    "cart": [(0.0, 0.0, 3.0), (2.0, -1.5, 0.0), (-0.125, 6.0, -2.5), (0, 0.1, 0.2)],
}
GRID = {
    "ellps": ((11.44, 11.57, 0.0625), (47.0, 47.5, 0.25), (3000, 5000, 1500)),
    "enu": ((-6000, 6001, 6000), (500.0, 501.0, 1.0), (3000.0, 9000.0, 3000)),
    "cart": ((-1.5, 2, 1.5), (-2.0, 3.5, 5), (2, 4, 1.0)),
}


# lists of observation points that are not a survey: indices of OBS (repeated, in any order), or
# places on, in and around the first body
LISTS = {
    "twice": (0, 0),
    "again": (1, 0, 1, 2, 0),
    "back": (2, 1, 0),
    "same": (1,) * 7,
}


def obs_points(sys_, n=None):
    k = SYS[sys_][1][0]
    if isinstance(n, str) and n in LISTS:
        return obs_points(sys_)[list(LISTS[n])]
    if n == "around":  # vertex, mid-edge, mid-face, inside, in line with an edge, in a face's plane, far
        c = np.array([(1, 1, 1), (-1, 1, -1), (1, 0, 1), (0, 0, 1), (0.5, -0.25, 0.125), (3, 1, 1), (3, 4, 1), (50, -20, 30)], dtype=float)
        if k == "cart":
            return c * np.array([0.5, 0.75, 0.5])
        if k == "enu":
            return c * np.array([800.0, 600.0, 400.0])
        g = c * np.array([0.01, 0.007, 400.0]) + np.array(CENTRE[0])
        return refcrs.physical(g, ("ellps",) + WGS84).astype(float) if k == "ecef" else g
    if isinstance(n, (tuple, list)):  # given as such
        return np.array(n, dtype=float)
    if isinstance(n, int) and n > 5:  # a survey: rows of points above the bodies
        i = np.arange(n)
        if k == "cart":
            return np.stack([-4 + (i % 40) * 0.2, -3 + i // 40 * 0.15, 5 + (i % 7) * 0.5], axis=1)
        if k == "enu":
            return np.stack([-9000 + (i % 40) * 450.0, -8000 + i // 40 * 400.0, 3000 + (i % 7) * 250.0], axis=1)
        p = np.stack([11.4 + (i % 40) * 0.005, 47.1 + i // 40 * 0.006, 3000 + (i % 7) * 250.0], axis=1)
        return refcrs.physical(p, ("ellps",) + WGS84).astype(float) if k == "ecef" else p
    if k == "ecef":
        p = refcrs.physical(np.array(OBS["ellps"]), ("ellps",) + WGS84).astype(float)
    else:
        p = np.array(OBS[k], dtype=float)
    return p[:n]


def obs_conf(sys_, src, n, fname="obs.csv"):
    """(configuration, coordinates, files to write)"""
    a = SYS[sys_][0]
    crs = crsenv.crs_conf(*a)
    crs.pop("vdatum")
    c = {"points": [], "file_path": None, "grid": None, "crs": crs}
    files = {}
    if src == "grid" and SYS[sys_][1][0] != "ecef":
        g = GRID[SYS[sys_][1][0]]
        c["grid"] = dict(zip(("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep"), map(list, g)))
        ax = [[s + k * st for k in range(int(np.ceil((e - s) / st)))] for s, e, st in g]
        p = np.array([(x, y, z) for x in ax[0] for y in ax[1] for z in ax[2]], dtype=float)
    else:
        p = obs_points(sys_, n)
        c["grid"] = {"xstart_xend_xstep": [0, 1, 1], "ystart_yend_ystep": [0, 1, 1], "zstart_zend_zstep": [0, 1, 1]}
        if src == "file":
            c["file_path"] = fname
            files[fname] = "".join(",".join(repr(float(v)) for v in r) + "\n" for r in p)
        else:
            c["points"] = p.tolist()
    return c, p, files


class Scenario:
    """masses: [(system, shape, place, vdatum, k, 'points'|'file')]; obs: (system, source, n)"""

    def __init__(self, masses, obs):
        self.masses = [tuple(m) for m in masses]
        self.obs = tuple(tuple(map(tuple, x)) if isinstance(x, (list, tuple)) else x for x in obs)
        self.files = {}
        mc = []
        self.bodies = []
        for j, (s, shape, place, vd, k, src) in enumerate(self.masses):
            pts = body_points(s, shape, place)
            f = None
            if src == "file":
                f = f"body{j}.csv"
                self.files[f] = "".join(",".join(repr(float(v)) for v in r) + "\n" for r in pts)
            mc.append(mass_conf(s, pts, vd, k, f))
            self.bodies.append((s, shape, place, vd, k, pts))
        oc, self.opts, of = obs_conf(*self.obs)
        self.files.update(of)
        self.config = {"masses": mc, "observers": oc}

    def write(self, name="cfg.yaml"):
        for f, t in self.files.items():
            clienv.write(f, t)
        if name:
            clienv.write(name, clienv.yaml(self.config))
        return name

    def reference(self):
        """physical observation points, G, T and tolerances"""
        o = refcrs.physical(self.opts, SYS[self.obs[0]][1])
        cart = self.obs[0] == "CART"
        G = np.zeros((len(o), 3))
        T = np.zeros((len(o), 6))
        tg = np.zeros(len(o))
        tt = np.zeros(len(o))
        fg = np.zeros(len(o))
        ft = np.zeros(len(o))
        for s, shape, place, vd, k, pts in self.bodies:
            key = (s, shape, place, vd, self.obs)
            if key not in _unit:
                h = _hull(s, shape, place, vd, pts)
                _unit[key] = tuple(np.array(x, dtype=float) for x in h.field(o))
            g, t = _unit[key]
            f = RHO[k] * GCS[k]
            G += f * g
            T += f * t.reshape(-1, 9)[:, [0, 1, 2, 4, 5, 8]]
            tg += abs(f) * np.sqrt((g * g).sum(1))
            tt += abs(f) * np.sqrt((t * t).sum((1, 2)))
            # far away the closed form cancels: absolute error of its terms
            D = np.sqrt(((o - _hull(s, shape, place, vd, pts).P[0]) ** 2).sum(1)).astype(float)
            fg += abs(f) * 1e-14 * D * 1e5
            ft += abs(f) * 1e-14 * 1e9
        rel = 1e-9 if cart else 1e-6
        return o, G, T, rel * tg + fg + 1e-300, rel * tt + ft + 1e-300


_unit = {}
_hulls = {}


def _hull(s, shape, place, vd, pts):
    key = (s, shape, place, vd)
    if key not in _hulls:
        _hulls[key] = Hull(body_phys(s, pts, vd).astype(float))
    return _hulls[key]


NAMES = {
    "cart": ["x_mes", "y_mes", "z_mes"],
    "geo": ["lon_mes", "lat_mes", "alt_mes"],
}
UNITS = {"cart": ["(m)"] * 3, "geo": ["(degree_east)", "(degree_north)", "(m)"]}
FIELD = ["Gx", "Gy", "Gz", "txx", "txy", "txz", "tyy", "tyz", "tzz"]
FUNIT = ["(mGal)"] * 3 + ["(E)"] * 6


def judge(ctx, scen, text, gradient):
    """the text of the result file"""
    rows = list(csv.reader(io.StringIO(text)))
    kind = "cart" if scen.obs[0] == "CART" else "geo"
    if len(rows) < 2 or rows[0] != NAMES[kind] + FIELD or rows[1] != UNITS[kind] + FUNIT:
        ctx.fail(f"the two header lines are {rows[:2]}")
    try:
        data = np.array([[float(v) for v in r] for r in rows[2:]], dtype=float)
    except ValueError as e:
        ctx.fail(f"not a number in the results: {e}")
    o, G, T, tg, tt = scen.reference()
    if data.shape != (len(o), 12):
        ctx.fail(f"results have shape {data.shape}, expected {(len(o), 12)}")
    if kind == "cart":
        if not np.array_equal(data[:, :3], scen.opts):
            ctx.fail("the observation points are not those given")
    else:
        q = refcrs.physical(data[:, :3], ("ellps",) + WGS84)
        e = np.sqrt(((q - o) ** 2).sum(1)).astype(float)
        if not np.all(e <= 2e-6):
            i = int(np.argmax(e))
            ctx.fail(f"observation point {i} is reported {e[i]:.3g} m away from where it is: {data[i, :3].tolist()}")
        if scen.obs[0] in ("WGS84", "NULL") and not np.all(np.abs(data[:, :3] - scen.opts) <= (1e-9, 1e-9, 2e-6)):
            ctx.fail("observation points in WGS84 are not reported as given")
    e = np.abs(data[:, 3:6] - G).max(axis=1)
    if not np.all(e <= tg):
        i = int(np.argmax(np.where(np.isfinite(e), e / tg, np.inf)))
        ctx.fail(f"gravity at point {i} is {data[i, 3:6].tolist()}, expected {G[i].tolist()} (off by {e[i]:.3g}, tolerance {tg[i]:.3g} mGal)")
    ctx.err("G", float((e / tg).max()))
    if not gradient:
        if np.any(data[:, 6:] != 0):
            ctx.fail("gradients were not asked for, but are not zero")
    else:
        e = np.abs(data[:, 6:] - T).max(axis=1)
        if not np.all(e <= tt):
            i = int(np.argmax(np.where(np.isfinite(e), e / tt, np.inf)))
            ctx.fail(f"gradient at point {i} is {data[i, 6:].tolist()}, expected {T[i].tolist()} (off by {e[i]:.3g}, tolerance {tt[i]:.3g} E)")
        ctx.err("T", float((e / tt).max()))
    ctx.traces += len(o)
