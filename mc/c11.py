"""C11: a coordinate system is understood exactly as its configuration says, or refused."""
from itertools import product

import numpy as np

import crsenv
import refcrs
from crsenv import conf, descr, vdatum

ID = "C11"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every combination of 16 values of ref (4 systems in 3 spellings, missing, null, 3 invalid) x 6 ellipsoid names"
    " (valid, empty, null, invalid) x 7 pairs of axes x 15 vertical datums x 9 local origins, and every named"
    " ellipsoid; 17 more unknown systems and 16 more unknown ellipsoids, most a letter away from a known one; all pairs of 6 ellipsoids of a system and its local frame; each description read alone and after every one of 12 others was read and converted",
    "thorough": "as quick, with every ellipsoid name in the full product, and histories of two",
}
ASSUMPTIONS = [
    "rejection is any exception",
    "sizes of the named ellipsoids are those of pymap3d",
    "keys of the ellipsoid are present (possibly null), as in the template",
]
init_worker = crsenv.init_worker
MISSING = "<missing>"
REFS = ["cart", "CART", "Cart", "ecef", "ECEF", "Ecef", "ellps", "ELLPS", "Ellps", "enu", "ENU", "Enu", MISSING, None, "wgs84", "", 3]
NAMES = [None, "", "wgs84", "airy", "grs80", "atlantis"]
AXES = [(None, None), (6378388.0, 6356911.9), (6400000, 6300000), (6371000.0, 6371000), (6356752.0, 6378137.0), (1737.4, 1736.0), (2, 1.5)]
VDS = [MISSING, None, "ellps", "ELLPS", "egm84", "EGM84", "egm96", "egm2008", "EGM2008", "msl", 96, "egm", "egm2020", "wgs84", ""]
ORG = [
    (None, None, None),
    (11.5, -47.25, 600.0),
    (10, 20, 30),
    (0.0, 0.0, 0.0),
    (None, -47.25, 600.0),
    (11.5, None, 600.0),
    (11.5, -47.25, None),
    (11.5, -47.25, "high"),
    ("east", -47.25, 1.0),
]


def section(ref, name, axes, vd, org):
    c = crsenv.crs_conf(ref, name, axes, org, vd)
    return {k: v for k, v in c.items() if not (isinstance(v, str) and v == MISSING)}


def oracle(ref, name, axes, vd, org):
    """what the documentation of the configuration file says: (descriptor, vdatum) or None if invalid"""
    import pymap3d as pm

    if ref in (MISSING, None):
        ref = "ellps"
    if not isinstance(ref, str) or ref.lower() not in ("cart", "ecef", "ellps", "enu"):
        return None
    ref = ref.lower()
    if ref in ("cart", "ecef"):
        return (ref,), None
    if name:
        if name not in pm.Ellipsoid.models:
            return None
        ab = (pm.Ellipsoid.models[name]["a"], pm.Ellipsoid.models[name]["b"])
    elif axes[0] and axes[1]:
        ab = (float(axes[0]), float(axes[1]))
    else:
        ab = refcrs.WGS84
    if vd in (MISSING, None):
        vd = "ellps"
    if not isinstance(vd, str) or vd.lower() not in ("ellps", "egm84", "egm96", "egm2008"):
        return None
    if ref == "ellps":
        return ("ellps",) + ab, vd.lower()
    if not all(isinstance(o, (int, float)) for o in org):
        return None
    return ("enu",) + ab + tuple(float(o) for o in org), None


def prolate(d):
    """an ellipsoid longer than wide: may be refused"""
    return len(d) > 2 and d[1] < d[2]


def read(sec):
    import geec.crs

    return geec.crs.get_crs(conf({"crs": sec})["crs"])


def one(ctx, args):
    ref, name, axes, vd, org = args
    ctx.at({"args": [ref, name, list(axes), vd, list(org)]})
    want = oracle(*args)
    if want is not None and want[0][0] in ("cart", "ecef") and oracle("enu", name, axes, vd, ORG[1]) is None:
        return None  # keys that do not apply are invalid: accepted or refused
    ctx.states += 1
    ctx.transitions += 1
    ctx.traces += 1
    try:
        crs = read(section(*args))
    except Exception as e:
        if want is not None and not prolate(want[0]):
            ctx.fail(f"{section(*args)} refused: {type(e).__name__}: {e}")
        ctx.count("refused")
        return None
    if want is None:
        ctx.fail(f"{section(*args)} accepted, as {descr(crs)} {vdatum(crs)}")
    check(ctx, crs, want, args)
    ctx.count("accepted")
    ctx.outcome(want)
    return crs


def check(ctx, crs, want, args):
    if descr(crs) != want[0]:
        ctx.fail(f"{section(*args)} understood as {descr(crs)}, expected {want[0]}")
    if want[1] is not None and vdatum(crs) != want[1]:
        ctx.fail(f"{section(*args)}: heights understood relative to {vdatum(crs)}, expected {want[1]}")


def _bad(r, n, a, v, o):
    return oracle(r, n, a, v, o) is None


HIST = [
    ("cart", None, AXES[0], None, ORG[0]),
    ("ecef", None, AXES[0], None, ORG[0]),
    ("ellps", None, AXES[0], None, ORG[0]),
    (None, "airy", AXES[0], "egm96", ORG[0]),
    ("ellps", "wgs84", AXES[0], "egm84", ORG[0]),
    ("ellps", None, AXES[1], "egm2008", ORG[0]),
    ("ellps", None, AXES[2], None, ORG[0]),
    ("enu", None, AXES[0], None, ORG[1]),
    ("enu", "airy", AXES[0], "egm96", ORG[2]),
    ("enu", None, AXES[1], None, ORG[3]),
    ("enu", None, AXES[0], None, ORG[0]),  # refused
    ("ellps", "atlantis", AXES[0], None, ORG[0]),  # refused
]
UNKNOWN_REFS = ("ellpsx", "ellp", "ecefx", "ece", "enux", "enuu", "en", "cart1", "car", "cartesian", "xenu", "e", "ecef,enu", "none", "wgs84", "lla", "geodetic")
UNKNOWN_NAMES = ("wgs84x", "xwgs84", "wgs", "wgs 84", "wgs-84", "wgs_84", "wgs8", "84", "airy1", "grs", "grs 80", "none", "default", "sphere", "wgs84,airy", "models")
PTS = np.array([[10.0, 45.0, 100.0], [11.0, 44.0, -50.0]])


def history(ctx, seq):
    """read (and convert data with) each description in turn: every reading is the same as alone"""
    import geec.dataset

    live = []
    for i, k in enumerate(seq):
        a = HIST[k]
        want = oracle(*a)
        ctx.transitions += 1
        ctx.at({"history": list(seq[: i + 1])})
        try:
            crs = read(section(*a))
        except Exception as e:
            if want is not None:
                ctx.fail(f"{section(*a)} refused after {seq[:i]}: {type(e).__name__}: {e}")
            continue
        if want is None:
            ctx.fail(f"{section(*a)} accepted after {seq[:i]}")
        check(ctx, crs, want, a)
        for c, w, b in live:
            check(ctx, c, w, b)
        live.append((crs, want, a))
        for op in ("L", "H", "E", "W", "2"):
            ds = geec.dataset.get_dataset(conf({"d": {"points": PTS.tolist(), "crs": section(*a)}})["d"])
            crsenv.apply(ds, op)
            for c, w, b in live:
                check(ctx, c, w, b)
    ctx.states += 1
    ctx.traces += 1


def ellipsoids():
    from geec.crs import Ellipsoid

    return [Ellipsoid(), Ellipsoid(name="airy"), Ellipsoid(name="grs80"), Ellipsoid(semimajor_axis=6378388.0, semiminor_axis=6356911.9),
            Ellipsoid(semimajor_axis=6378388.0, semiminor_axis=6356911.8), Ellipsoid(semimajor_axis=6378388.1, semiminor_axis=6356911.9)]


def objects(ctx):
    """a local frame on another ellipsoid than the one of its coordinate system is refused"""
    from geec.crs import CRS, ENU, CRSEnum, VDatumEnum

    ell, again = ellipsoids(), ellipsoids()
    for (i, a), (j, b), o, v in product(enumerate(ell), enumerate(again), ORG[1:4], list(VDatumEnum)):
        ctx.at({"objects": [i, j]})
        try:
            c = CRS(name=CRSEnum.ENU, ellps=a, enu=ENU(longitude_origin=o[0], latitude_origin=o[1], altitude_origin=o[2], ellps=b), vdatum=v)
        except Exception as e:
            if i == j:
                ctx.fail(f"a local frame on its own ellipsoid {a} refused: {type(e).__name__}: {e}")
            c = None
        if c is not None and i != j:
            ctx.fail(f"a local frame on {b} accepted in a coordinate system on {a}")
        if c is not None and descr(c) != ("enu", a.semimajor_axis, a.semiminor_axis) + tuple(map(float, o)):
            ctx.fail(f"a local frame on {b} at {o} became {descr(c)}")
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1


def tasks(tier):
    big = tier == "thorough"
    T = []
    for r in REFS:
        for n in NAMES:
            T.append(("prod", r, n))
    T.append(("names",))
    T.append(("unknown",))
    T.append(("objects",))
    for k in range(len(HIST)):
        T.append(("hist", k, 3 if big else 2))
    if big:
        T.append(("allnames",))
    return T


def run_task(task, ctx):
    if task[0] == "prod":
        for a, v, o in product(AXES, VDS, ORG):
            one(ctx, (task[1], task[2], a, v, o))
        ctx.sample({"ref": task[1], "name": task[2]})
    elif task[0] == "objects":
        objects(ctx)
    elif task[0] == "unknown":
        import pymap3d as pm

        for r, n, a, o in product(UNKNOWN_REFS, (None, "wgs84"), AXES[:2], ORG[:3]):
            one(ctx, (r, n, a, None, o))
        for n in UNKNOWN_NAMES:
            if n not in pm.Ellipsoid.models:
                for r, a, v, o in product(("ellps", "enu", None), AXES, (None, "egm96"), ORG[:2]):
                    one(ctx, (r, n, a, v, o))
    elif task[0] == "hist":
        for rest in product(range(len(HIST)), repeat=task[2] - 1):
            history(ctx, (task[1],) + rest + (task[1],))
    else:
        import pymap3d as pm

        vs = VDS if task[0] == "allnames" else [None, "egm96"]
        for n in pm.Ellipsoid.models:
            for r, a, v, o in product(("ellps", "ENU", None), AXES, vs, ORG if task[0] == "allnames" else ORG[1:2]):
                one(ctx, (r, n, a, v, o))


def run_case(case, ctx):
    if "args" in case:
        r, n, a, v, o = case["args"]
        one(ctx, (r, n, tuple(a), v, tuple(o)))
    elif "objects" in case:
        objects(ctx)
    else:
        history(ctx, tuple(case["history"]))
