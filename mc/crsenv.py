"""What the coordinate-system checks share: importing the package, making configurations in
memory, reading a descriptor, and the abstract machine of descriptors."""
import os
import sys

import numpy as np

import refcrs
from refcrs import AIRY, WGS84

CUSTOM = (6378388.0, 6356911.94613)  # axes given as numbers


def init_worker():
    import geoidenv

    geoidenv.install()
    os.environ["GEECDIR"] = "/nonexistent-geec"
    import loguru

    loguru.logger.remove()
    import geec.crs  # noqa
    import geec.dataset  # noqa
    import geec.mass  # noqa
    import geec.observer  # noqa

    loguru.logger.remove()


def conf(d):
    import confuse

    c = confuse.Configuration("geecmc", read=False)
    c.add(d)
    return c


def crs_conf(ref, name=None, axes=(None, None), origin=(None, None, None), vdatum=None):
    return {
        "ref": ref,
        "name": name,
        "semimajor_axis": axes[0],
        "semiminor_axis": axes[1],
        "longitude_origin": origin[0],
        "latitude_origin": origin[1],
        "altitude_origin": origin[2],
        "vdatum": vdatum,
    }


O1, O2, O3 = (0.0, 0.0, 0.0), (-71.3, -33.4, 520.0), (179.9, 89.0, -100.0)
OW, OA = (11.5, 47.25, 600.0), (-150.0, -72.0, 3000.0)

# initial coordinate systems: configuration and what it means
INIT = {
    "ECEF": (crs_conf("ecef"), ("ecef",)),
    "WGS84": (crs_conf("ellps", "wgs84"), ("ellps",) + WGS84),
    "AIRY": (crs_conf("ellps", "airy"), ("ellps",) + AIRY),
    "AXES": (crs_conf("ellps", None, CUSTOM), ("ellps",) + CUSTOM),
    "ENUW": (crs_conf("enu", "wgs84", origin=OW), ("enu",) + WGS84 + OW),
    "ENUA": (crs_conf("enu", "airy", origin=OA), ("enu",) + AIRY + OA),
    "CART": (crs_conf("cart"), ("cart",)),
}


def dataset_conf(init, pts):
    return {"points": np.asarray(pts).tolist(), "file_path": None, "grid": None, "crs": INIT[init][0]}


def descr(crs):
    """descriptor of the implementation, in the notation of refcrs.physical; None if incoherent"""
    n = str(getattr(crs.name, "value", crs.name))
    if n in ("cart", "ecef"):
        return (n,)
    ab = (float(crs.ellps.semimajor_axis), float(crs.ellps.semiminor_axis))
    if n == "ellps":
        return (n,) + ab
    if n != "enu":
        return None
    e = crs.enu
    if (float(e.ellps.semimajor_axis), float(e.ellps.semiminor_axis)) != ab:
        return None
    return (n,) + ab + (float(e.longitude_origin), float(e.latitude_origin), float(e.altitude_origin))


def vdatum(crs):
    return str(getattr(crs.vdatum, "value", crs.vdatum))


ORIGINS = {"1": O1, "2": O2, "3": O3}
LETTERS = "LHEW123"


def step(d, op):
    """the abstract machine: what each conversion does to the descriptor"""
    if d[0] == "cart" or op in "LH":
        return d
    if op == "E":
        return ("ecef",)
    if op == "W":
        return ("ellps",) + WGS84
    return ("enu",) + WGS84 + ORIGINS[op]


def apply(obj, op):
    """the same conversion on the implementation (a dataset, a mass or an observer).  Heights of points
    whose longitude was not wrapped may be refused; the caller then checks that nothing changed"""
    if op == "H":
        ds = getattr(obj, "dataset", obj)
        if descr(ds.crs)[0] == "ellps" and np.any(np.asarray(ds.coords)[:, 0] > 180):
            try:
                obj.to_ellipsoid_height()
            except Exception:
                pass
            return
    if op == "L":
        obj.to_lon180()
    elif op == "H":
        obj.to_ellipsoid_height()
    elif op == "E":
        obj.to_ecef()
    elif op == "W":
        obj.to_wgs84()
    else:
        obj.to_enu(*ORIGINS[op])


LONS = (-180.0, -179.9, -90.0, -0.001, 0.0, 45.25, 90.0, 179.9, 180.0, 270.5, 359.9)
LATS = (-90.0, -89.9, -45.0, -1e-3, 0.0, 30.0, 60.0, 89.9, 90.0)
ALTS = (-1e4, -1.0, 0.0, 3e3, 1e5)
GEO_ALL = np.array([(a, b, c) for a in LONS for b in LATS for c in ALTS])
XYZ = np.array(
    [(x, y, z) for x in (-9e4, -181.0, 0.0, 181.0, 7e4) for y in (-5e4, 0.5, 270.0) for z in (-8e3, 0.0, 2e3)]
)


def points(init, which):
    """float64 coordinates of batch `which` in the initial system `init`"""
    if init in ("CART", "ENUW", "ENUA"):
        p = XYZ
    else:
        p = GEO_ALL
        if init == "ECEF":
            p = refcrs.physical(p, ("ellps",) + WGS84).astype(float)
            p[::2][np.abs(p[::2, 2]) > 6.3e6, :2] = 0.0  # poles: exactly on the axis, and 1e-10 m off
    n = len(p)
    if which == "all":
        return p.copy()
    if which == "many":
        return p[:: max(1, n // 45)].copy()
    if which == "one":
        return p[n // 3 : n // 3 + 1].copy()
    if which == "three":
        return p[[n // 7, n // 2 + 1, n - 2]].copy()
    return p[[1, n // 5, n // 2, n - 1]].copy()  # four


def tol(phys):
    """m: the closed-form inverse used by the package loses accuracy with altitude"""
    r = np.sqrt((np.asarray(phys, dtype=float) ** 2).sum(axis=-1))
    return np.where(r < 6.39e6, 2e-7, 1e-4)
