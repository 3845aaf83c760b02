"""Reference coordinate transforms in extended precision, forward direction only
(geodetic -> ECEF, ENU -> ECEF): every result of the implementation is judged by decoding
(coordinates, descriptor) forward to the physical point, so no inverse is ever needed."""
import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")


def _rad(d):
    return np.asarray(d, dtype=LD) * (PI / LD(180))


def geodetic_ecef(lon, lat, alt, a, b):
    lo, la, h = _rad(lon), _rad(lat), np.asarray(alt, dtype=LD)
    a, b = LD(a), LD(b)
    c, s = np.cos(la), np.sin(la)
    n = a * a / np.sqrt(a * a * c * c + b * b * s * s)
    return np.stack([(n + h) * c * np.cos(lo), (n + h) * c * np.sin(lo), (n * (b / a) ** 2 + h) * s], axis=-1)


def enu_axes(lon0, lat0):
    lo, la = _rad(lon0), _rad(lat0)
    e = np.array([-np.sin(lo), np.cos(lo), LD(0)])
    n = np.array([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)])
    u = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    return e, n, u


def enu_ecef(pts, lon0, lat0, alt0, a, b):
    o = geodetic_ecef(lon0, lat0, alt0, a, b)
    e, n, u = enu_axes(lon0, lat0)
    p = np.asarray(pts, dtype=LD)
    return o + p[:, :1] * e + p[:, 1:2] * n + p[:, 2:3] * u


WGS84 = (6378137.0, 6356752.31424518)
AIRY = (6377563.396, 6356256.909)


def physical(pts, d):
    """physical position of coordinates `pts` (n,3) described by `d`:
    ("cart",) | ("ecef",) | ("ellps", a, b) | ("enu", a, b, lon0, lat0, alt0)"""
    p = np.asarray(pts, dtype=LD)
    if d[0] in ("cart", "ecef"):
        return p
    if d[0] == "ellps":
        return geodetic_ecef(p[:, 0], p[:, 1], p[:, 2], d[1], d[2])
    return enu_ecef(p, d[3], d[4], d[5], d[1], d[2])
