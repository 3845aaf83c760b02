"""Closes the environment of geec.crs: the two geoid grids missing from this copy.

geec.crs opens egm84-15.pgm (present), egm96-5.pgm and egm2008-2_5.pgm (missing: too
large for the repository copy).  `install()` makes pygeodesy's geoid classes read a
small *synthetic* grid in the same PGM format when -- and only when -- the requested
file does not exist.  The interpolation is still pygeodesy's own.  The synthetic
surfaces are smooth, all different from each other and from EGM84, and have no
latitude/longitude, hemisphere or east/west symmetry, so a wrong grid, a swapped
coordinate or a wrong sign changes the height by metres.
"""
import math
import os
import shutil
import tempfile
import atexit

_DIR = None
NLON, NLAT = 36, 19


def _surface(kind, lat, lon):
    la, lo = math.radians(lat), math.radians(lon)
    if kind == 1:
        return 31.0 + 17.0 * math.sin(la) + 23.0 * math.cos(la) * math.sin(lo + 0.3)
    return -22.0 - 11.0 * math.sin(la) + 19.0 * math.cos(la) * math.cos(lo - 0.7)


def _write(path, kind):
    off, scale = -108.0, 0.003
    head = (
        "P5\n# Geoid file in PGM format for the GeographicLib::Geoid class\n"
        "# Description synthetic surface %d\n# URL none\n# DateTime 2000-01-01 00:00:00\n"
        "# MaxBilinearError 0.140\n# RMSBilinearError 0.005\n# MaxCubicError 0.003\n"
        "# RMSCubicError 0.001\n# Offset %d\n# Scale %g\n# Origin 90N 0E\n"
        "# AREA_OR_POINT Point\n# Vertical_Datum WGS84\n%d %d\n65535\n"
        % (kind, off, scale, NLON, NLAT)
    ).encode()
    body = bytearray()
    for i in range(NLAT):
        lat = 90 - i * 180 / (NLAT - 1)
        for j in range(NLON):
            lon = j * 360 / NLON
            v = int(round((_surface(kind, lat, lon) - off) / scale))
            body += bytes((v >> 8, v & 255))
    with open(path, "wb") as f:
        f.write(head + bytes(body))


_KIND = {"egm96-5.pgm": 1, "egm2008-2_5.pgm": 2}


def grid_path(name):
    """path of the grid `name` (basename): the real one if present, else the synthetic one"""
    real = os.path.join("/repo/geec/data/geoids", name)
    if os.path.exists(real):
        return real
    global _DIR
    if _DIR is None:
        _DIR = tempfile.mkdtemp(prefix="geecmc_geoid_")
        pid = os.getpid()
        d = _DIR

        def _clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)

        atexit.register(_clean)
    p = os.path.join(_DIR, name)
    if not os.path.exists(p):
        _write(p, _KIND[name])
    return p


def install():
    import pygeodesy
    import pygeodesy.geoids as G

    if "_geecmc" in vars(pygeodesy):
        return
    for cls in ("GeoidKarney", "GeoidPGM"):
        orig = getattr(G, cls)

        def make(orig):
            class Redirected(orig):
                def __init__(self, egm_pgm, *a, **k):
                    path = os.fspath(egm_pgm)
                    if not os.path.exists(path) and os.path.basename(path) in _KIND:
                        path = grid_path(os.path.basename(path))
                    super().__init__(path, *a, **k)

            Redirected.__name__ = orig.__name__
            return Redirected

        new = make(orig)
        setattr(G, cls, new)
        setattr(pygeodesy, cls, new)
    pygeodesy._geecmc = True
