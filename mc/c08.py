"""C08: converting between coordinate systems never moves a point."""
import copy
from itertools import product

import numpy as np

import crsenv
import refcrs
from refcrs import WGS84
from crsenv import INIT, LETTERS, conf, descr, step, apply, vdatum

ID = "C08"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every sequence of up to 5 (batches of 1 and 3 points) or 4 (4 and ~45 points) conversions (7 letters: wrap, height, ECEF, WGS84, ENU at 3 origins) from each"
    " of 7 initial systems; the 495-point grid to depth 2; batches of 513 to 4097 points to depth 2; every"
    " sequence of 2 (order-2 de Bruijn word, 50 conversions) as one long history; Mass and Observer to depth 3;"
    " lists of two masses: every ordered pair of systems x sequences of up to 3, lists of 4 to 33; two live datasets: every"
    " interleaving of up to 4 conversions; all named ellipsoids and a sphere; every pair of local systems whose origins differ"
    " by 0 to 1.5 degrees, 360 degrees or some height, at 4 places on 2 ellipsoids; 75 origins"
    " of local systems (poles, antimeridian) asked for or described",
    "thorough": "sequences of up to 5 (6 for batches of 1 and 3), 495-point grid to depth 3, Mass and Observer to depth 4, lists of"
    " masses to depth 4, interleavings of up to 5, order-3 word",
}
ASSUMPTIONS = [
    "altitudes from -10 km to 100 km above the ellipsoid (the closed-form inverse of pymap3d is centimetres off"
    " at 1000 km)",
    "sizes of the named ellipsoids are those of pymap3d",
    "heights are ellipsoid heights (the vertical datum is decided by C09)",
]
init_worker = crsenv.init_worker


def decode(ctx, ds, d, phys, tolf=1.0):
    """the dataset must be what the abstract machine says, at the original place"""
    got = descr(ds.crs)
    if got != d:
        ctx.fail(f"the coordinates are labelled {got}, expected {d}")
    if vdatum(ds.crs) != "ellps":
        ctx.fail("the vertical datum changed")
    c = np.asarray(ds.coords)
    if c.shape != phys.shape or c.dtype != np.float64:
        ctx.fail(f"coordinates have shape {c.shape} and type {c.dtype}, expected {phys.shape} float64")
    q = refcrs.physical(c, d)
    e = np.sqrt(((q - phys) ** 2).sum(axis=1)).astype(float)
    t = crsenv.tol(phys) * tolf
    if d[0] == "cart":
        t = t * 0
    if not np.all(e <= t):
        i = int(np.nanargmax(np.where(np.isfinite(e), e / np.maximum(t, 1e-300), np.inf)))
        ctx.fail(f"point {i} moved by {e[i]:.3g} m (now {c[i].tolist()} in {d})")
    if d[0] != "cart":
        ctx.err("displacement", float((e / t).max()))
    if not (np.array_equal(ds.lon, c[:, 0]) and np.array_equal(ds.lat, c[:, 1]) and np.array_equal(ds.alt, c[:, 2])):
        ctx.fail("lon, lat, alt are not the columns of the coordinates")


def make(kind, init, pts):
    import geec.dataset
    import geec.mass
    import geec.observer

    d = crsenv.dataset_conf(init, pts)
    if kind == "dataset":
        return geec.dataset.get_dataset(conf({"d": d})["d"])
    if kind == "observer":
        return geec.observer.get_observer(conf({"observers": d}))
    return geec.mass.get_masses(conf({"masses": [dict(d, density=1.0, gravity_constant=1.0)]}))[0]


def inner(kind, o):
    return o if kind == "dataset" else o.dataset


def dfs(ctx, kind, init, batch, depth, prefix=""):
    pts = crsenv.points(init, batch)
    d = INIT[init][1]
    phys = refcrs.physical(pts, d)
    case = {"kind": kind, "init": init, "batch": batch, "ops": ""}
    ctx.at(case)
    o = make(kind, init, pts)
    decode(ctx, inner(kind, o), d, phys)
    for op in prefix:
        apply(o, op)
        d = step(d, op)

    def rec(o, d, ops):
        ctx.states += 1
        if len(ops) == depth:
            ctx.traces += 1
            return
        for op in LETTERS:
            ctx.at(dict(case, ops=ops + op))
            c = copy.deepcopy(o)
            apply(c, op)
            ctx.transitions += 1
            nd = step(d, op)
            decode(ctx, inner(kind, c), nd, phys)
            ctx.outcome(init, nd)
            rec(c, nd, ops + op)

    rec(o, d, prefix)
    ctx.sample({"init": init, "batch": batch, "depth": depth, "final": d})


def lists(ctx, inits, depth):
    """functions on a list of masses: every mass converted, each according to its own system"""
    import geec.mass

    fn = {
        "L": geec.mass.to_lon180,
        "H": geec.mass.to_ellipsoid_height,
        "E": geec.mass.to_ecef,
        "W": geec.mass.to_wgs84,
    }
    P = [crsenv.points(i, ("four", "three", "one")[k % 3]) for k, i in enumerate(inits)]
    D = [INIT[i][1] for i in inits]
    PH = [refcrs.physical(p, d) for p, d in zip(P, D)]

    def build():
        return geec.mass.get_masses(
            conf({"masses": [dict(crsenv.dataset_conf(i, p), density=1.0, gravity_constant=1.0) for i, p in zip(inits, P)]})
        )

    for n in range(depth + 1):
        for ops in product(LETTERS, repeat=n):
            if n < depth and n:
                continue  # prefixes are checked on the way
            ctx.at({"list": list(inits), "ops": "".join(ops)})
            ms = build()
            D = [INIT[i][1] for i in inits]
            ctx.require(len(ms) == len(inits), "wrong number of masses")
            for op in ops:
                if op == "H" and any(d[0] == "ellps" and np.any(m.dataset.coords[:, 0] > 180) for m, d in zip(ms, D)):
                    try:
                        fn[op](ms)
                    except Exception:  # longitudes not wrapped: may be refused
                        pass
                elif op in fn:
                    fn[op](ms)
                else:
                    geec.mass.to_enu(ms, *crsenv.ORIGINS[op])
                ctx.transitions += 1
                D = [step(d, op) for d in D]
                for m, d, ph in zip(ms, D, PH):
                    decode(ctx, m.dataset, d, ph)
            ctx.states += 1
            ctx.traces += 1
    ctx.outcome(inits)


def pair(ctx, init, depth, ops=None):
    """two live datasets of the same description, converted in every interleaving"""
    P = [crsenv.points(init, "four"), crsenv.points(init, "three")]
    PH = [refcrs.physical(p, INIT[init][1]) for p in P]
    alpha = [(k, op) for k in (0, 1) for op in "LHEW2"]
    seqs = product(alpha, repeat=depth) if ops is None else [ops]
    for seq in seqs:
        if ops is None and seq[0][0] == 1:
            continue  # by symmetry
        ctx.at({"pair": init, "ops": [list(s) for s in seq]})
        ds = [make("dataset", init, p) for p in P]
        D = [INIT[init][1]] * 2
        for k, op in seq:
            apply(ds[k], op)
            ctx.transitions += 1
            D[k] = step(D[k], op)
            for j in (0, 1):
                decode(ctx, ds[j], D[j], PH[j])
        ctx.states += 1
        ctx.traces += 1


def debruijn(k, n):
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


def word(ctx, init, batch, order, upto=None):
    pts = crsenv.points(init, batch)
    d = INIT[init][1]
    phys = refcrs.physical(pts, d)
    w = "".join(LETTERS[i] for i in debruijn(len(LETTERS), order))[:upto]
    o = make("dataset", init, pts)
    for i, op in enumerate(w):
        ctx.at({"word": init, "batch": batch, "order": order, "upto": i + 1})
        apply(o, op)
        ctx.transitions += 1
        d = step(d, op)
        decode(ctx, o, d, phys, tolf=max(1.0, (i + 1) / 4))
    ctx.states += 1
    ctx.traces += 1


def ellipsoids(ctx, only=None):
    import geec.dataset
    import pymap3d as pm

    pts = crsenv.GEO_ALL
    models = dict(pm.Ellipsoid.models)
    models[None] = {"a": 6371000.0, "b": 6371000.0}  # a sphere
    for name, m in models.items():
        if only and name != only:
            continue
        a, b = m["a"], m["b"]
        ctx.at({"ellipsoid": name})
        phys = refcrs.physical(pts, ("ellps", a, b))
        earth = name is not None and abs(a - 6378137) < 5e3
        enu = refcrs.physical(crsenv.XYZ, ("enu", a, b) + crsenv.O2)
        for cfg, p, d0, ph in (
            (crsenv.crs_conf("ellps", name, (None, None) if name else (a, b)), pts, ("ellps", a, b), phys),
            (crsenv.crs_conf("ellps", None, (a, b)), pts, ("ellps", a, b), phys),
            (crsenv.crs_conf("enu", name, (None, None) if name else (a, b), origin=crsenv.O2), crsenv.XYZ, ("enu", a, b) + crsenv.O2, enu),
            (crsenv.crs_conf("enu", "", (a, b), origin=crsenv.O2), crsenv.XYZ, ("enu", a, b) + crsenv.O2, enu),
        ):
            for ops in ("E", "LHE", "LEE") + (("W", "LW1E", "2W") if earth else ()):
                ds = geec.dataset.get_dataset(conf({"d": {"points": p.tolist(), "file_path": None, "grid": None, "crs": cfg}})["d"])
                d = d0
                decode(ctx, ds, d, ph)
                for op in ops:
                    apply(ds, op)
                    ctx.transitions += 1
                    d = step(d, op)
                    decode(ctx, ds, d, ph, tolf=30.0)
                ctx.states += 1
                ctx.traces += 1
        ctx.outcome(name)


ORG = list(product((-180.0, -71.3, 0.0, 90.0, 180.0), (-90.0, -33.4, 0.0, 45.0, 90.0), (-500.0, 0.0, 8000.0)))


def huge(ctx, init, n, ops=None):
    """thousands of points at once"""
    pts = crsenv.points(init, "all")
    pts = np.concatenate([pts] * (n // len(pts) + 1))[:n]
    pts = pts * (1 - np.linspace(0, 1e-6, n))[:, None]
    d = INIT[init][1]
    phys = refcrs.physical(pts, d)
    ctx.at({"huge": init, "n": n, "ops": ops})
    for seq in [ops] if ops else ["".join(s) for s in product("LHEW2", repeat=2)]:
        ctx.at({"huge": init, "n": n, "ops": seq})
        o = make("dataset", init, pts)
        dd = d
        decode(ctx, o, dd, phys)
        for op in seq:
            apply(o, op)
            ctx.transitions += 1
            dd = step(dd, op)
            decode(ctx, o, dd, phys)
        ctx.states += 1
        ctx.traces += 1
    ctx.outcome("huge", init, n)


def origins(ctx, init, lon, only=None):
    """every origin of a local system: asked for, and described"""
    import geec.dataset

    for org in ORG if only is None else [tuple(only)]:
        if only is None and org[0] != lon:
            continue
        pts = crsenv.points(init, "four")
        d = INIT[init][1]
        phys = refcrs.physical(pts, d)
        ctx.at({"origin": init, "at": list(org)})
        o = make("dataset", init, pts)
        o.to_enu(*org)
        d = d if d[0] == "cart" else ("enu",) + WGS84 + org
        decode(ctx, o, d, phys)
        for op in "E1W" if int(org[1]) % 2 else "W2E":
            apply(o, op)
            ctx.transitions += 1
            d = step(d, op)
            decode(ctx, o, d, phys)
        # described in the configuration
        if init in ("WGS84", "AIRY", "AXES"):
            ab = INIT[init][1][1:3]
            d = ("enu",) + ab + org
            phys = refcrs.physical(crsenv.XYZ, d)
            cfg = dict(INIT[init][0], ref="enu", longitude_origin=org[0], latitude_origin=org[1], altitude_origin=org[2])
            for ops in ("E", "W", "3", "WE2"):
                ds = geec.dataset.get_dataset(conf({"d": {"points": crsenv.XYZ.tolist(), "file_path": None, "grid": None, "crs": cfg}})["d"])
                dd = d
                decode(ctx, ds, dd, phys)
                for op in ops:
                    apply(ds, op)
                    ctx.transitions += 1
                    dd = step(dd, op)
                    decode(ctx, ds, dd, phys)
        ctx.states += 1
        ctx.traces += 1
        ctx.outcome("origin", init, org)


NEAR = (0.0, 1e-7, -1e-5, 1e-4, -1e-3, 5e-3, -2e-2, 0.3, -1.5, 360.0, -360.0)
BASES = (crsenv.O1, crsenv.O2, crsenv.O3, crsenv.OW)


def near(ctx, name, base, only=None):
    """from one local system to another with nearly (or exactly) the same origin"""
    import geec.dataset

    ab = {"wgs84": WGS84, "airy": refcrs.AIRY}[name]
    org = BASES[base]
    cfg = crsenv.crs_conf("enu", name, origin=org)
    d = ("enu",) + ab + org
    phys = refcrs.physical(crsenv.XYZ, d)
    deltas = [(x, y, z) for x in NEAR for y in NEAR[:9] for z in (0.0, 0.25, -1000.0)]
    for dl in deltas if only is None else [tuple(only)]:
        to = tuple(float(a + b) for a, b in zip(org, dl))
        if abs(to[1]) > 90 or not -360 <= to[0] <= 360:
            continue
        ctx.at({"near": [name, base], "delta": list(dl)})
        ds = geec.dataset.get_dataset(conf({"d": {"points": crsenv.XYZ.tolist(), "file_path": None, "grid": None, "crs": cfg}})["d"])
        for o in (to, org, to):
            ds.to_enu(*o)
            ctx.transitions += 1
            decode(ctx, ds, ("enu",) + WGS84 + o, phys)
        (ds.to_ecef if base % 2 else ds.to_wgs84)()
        decode(ctx, ds, ("ecef",) if base % 2 else ("ellps",) + WGS84, phys)
        ctx.states += 1
        ctx.traces += 1
    ctx.outcome("near", name, base)


def tasks(tier):
    big = tier == "thorough"
    T = [("ell",)] + [("near", n, b) for n in ("wgs84", "airy") for b in range(len(BASES))]
    for i in INIT:
        for b in ("one", "three", "four", "many"):
            if big:
                for op in LETTERS:
                    T.append(("dfs", "dataset", i, b, 6 if b in ("one", "three") else 5, op))
            else:
                T.append(("dfs", "dataset", i, b, 5 if b in ("one", "three") else 4, ""))
        T.append(("dfs", "dataset", i, "all", 3 if big else 2, ""))
        for k in ("mass", "observer"):
            T.append(("dfs", k, i, "three", 4 if big else 3, ""))
        T.append(("word", i, "many", 3 if big else 2))
        T.append(("pair", i, 5 if big else 4))
        for j in INIT:
            T.append(("list", (i, j), 4 if big else 3))
        T.append(("list", (i, i, i), 3 if big else 2))
        names = list(INIT)
        k = names.index(i)
        for n in (4, 5, 9, 12, 33):
            T.append(("list", tuple((names[k:] + names[:k])[j % len(names)] for j in range(n)), 2 if big or n < 33 else 1))
        for n in (513, 1025, 4097):
            T.append(("huge", i, n))
        for lon in sorted({o[0] for o in ORG}):
            T.append(("origins", i, lon))
    return T


def run_task(task, ctx):
    {"ell": ellipsoids, "dfs": dfs, "list": lists, "word": word, "pair": pair, "origins": origins, "huge": huge, "near": near}[task[0]](ctx, *task[1:])


def run_case(case, ctx):
    if "kind" in case:
        pts = crsenv.points(case["init"], case["batch"])
        d = INIT[case["init"]][1]
        phys = refcrs.physical(pts, d)
        o = make(case["kind"], case["init"], pts)
        decode(ctx, inner(case["kind"], o), d, phys)
        for op in case["ops"]:
            apply(o, op)
            d = step(d, op)
            decode(ctx, inner(case["kind"], o), d, phys)
    elif "list" in case:
        lists(ctx, tuple(case["list"]), len(case["ops"]))
    elif "pair" in case:
        pair(ctx, case["pair"], 0, [tuple(s) for s in case["ops"]])
    elif "huge" in case:
        huge(ctx, case["huge"], case["n"], case["ops"])
    elif "near" in case:
        near(ctx, *case["near"], case["delta"])
    elif "origin" in case:
        origins(ctx, case["origin"], None, case["at"])
    elif "word" in case:
        word(ctx, case["word"], case["batch"], case["order"], case["upto"])
    else:
        ellipsoids(ctx, case["ellipsoid"])
