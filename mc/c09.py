"""C09: orthometric heights become ellipsoid heights once, with the geoid they refer to."""
import itertools
from itertools import product

import numpy as np

import crsenv
import geoidenv
import refcrs
from crsenv import INIT, apply, conf, descr, step, vdatum

ID = "C09"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "4 vertical datums x every sequence of up to 4 of {wrap, height} followed by every sequence of up to 2"
    " of {ECEF, WGS84, ENU} and by heights again, x 7 initial coordinate systems x batches of 1, 2, 3, 4 and ~40 points; a"
    " world grid of 703 positions x 3 heights per datum, alone and in one batch; 4190 positions in one batch; 120 clusters of neighbouring points; lists of masses: every ordered pair of datums,"
    " and every pair of coordinate systems, lists of up to 33 masses, through the list, each mass and each observer",
    "thorough": "prefixes of up to 6, suffixes of up to 3; world grid of 2701 positions; every ordered triple of datums",
}
ASSUMPTIONS = [
    "the two geoid grids missing from this copy are replaced by synthetic ones, different from each other and"
    " from EGM84; the interpolation itself is pygeodesy's (Karney), called by the oracle one position at a time",
    "heights of geodetic coordinates are converted before the horizontal system is changed, as geec run does",
]
DATUMS = {"ellps": None, "egm84": "egm84-15.pgm", "egm96": "egm96-5.pgm", "egm2008": "egm2008-2_5.pgm"}
_oracle = {}


def setup():
    for g in DATUMS.values():
        if g:
            geoidenv.grid_path(g)  # one copy, made by the parent


def init_worker():
    crsenv.init_worker()
    import pygeodesy

    for d, g in DATUMS.items():
        if g:
            _oracle[d] = pygeodesy.GeoidKarney(geoidenv.grid_path(g))


def undulation(d, lon, lat):
    if d == "ellps":
        return 0.0
    lon = (lon + 180.0) % 360.0 - 180.0 if not -180 <= lon <= 180 else lon
    return float(_oracle[d].height(lat, lon))


LONS = (-180.0, -123.4, -0.25, 0.0, 45.0, 100.7, 179.75, 180.0, 200.0, 359.5)
LATS = (-90.0, -60.5, 0.0, 12.6, 47.3, 90.0)
GEO = np.array([(lo, la, h) for lo in LONS for la in LATS for h in (0.0, 2500.5)])
BATCH = {
    "one": GEO[37:38],
    "one0": GEO[60:61],
    "two": GEO[[5, 90]],
    "three": GEO[[14, 119, 71]],
    "four": GEO[[1, 44, 97, 108]],
    "many": GEO[::3],
}


def make(init, dat, pts):
    import geec.dataset

    c = crsenv.dataset_conf(init, pts)
    c["crs"] = dict(c["crs"], vdatum=dat)
    return geec.dataset.get_dataset(conf({"d": c})["d"])


def pts_of(init, batch):
    if INIT[init][1][0] == "ellps":
        return BATCH[batch].copy()
    return crsenv.points(init, "four" if batch in ("two", "one0") else batch)


TOL = 1e-4


def expect(init, dat, pts):
    """coordinates once the heights are converted"""
    out = pts.copy()
    if INIT[init][1][0] == "ellps":
        for r in out:
            r[2] += undulation(dat, r[0], r[1])
    return out


def seq(ctx, init, dat, batch, ops):
    """ops: prefix over L, H (H at least once), then E, W, 2, then H"""
    pts = pts_of(init, batch)
    geo = INIT[init][1][0] == "ellps"
    ctx.at({"seq": init, "datum": dat, "batch": batch, "ops": ops})
    ds = make(init, dat, pts)
    d = INIT[init][1]
    done = False
    raw = refcrs.physical(pts, d)
    fin = refcrs.physical(expect(init, dat, pts), d)
    wrapped = not (geo and np.any(pts[:, 0] > 180))
    for op in ops:
        if op == "H" and not wrapped and d[0] == "ellps":
            # longitudes not wrapped: may be refused, and then nothing has changed
            before = np.array(ds.coords)
            vd = vdatum(ds.crs)
            try:
                ds.to_ellipsoid_height()
                done = True
            except Exception:
                if not np.array_equal(before, ds.coords) or vdatum(ds.crs) != vd:
                    ctx.fail("a refused conversion of heights changed the dataset")
        else:
            apply(ds, op)
            if op == "H" and geo:
                done = True
        if op == "L":
            wrapped = True
        ctx.transitions += 1
        d = step(d, op)
        if d[0] != "ellps":
            wrapped = True
        if descr(ds.crs) != d:
            ctx.fail(f"the coordinates are labelled {descr(ds.crs)}, expected {d}")
        if done and vdatum(ds.crs) != "ellps":
            ctx.fail(f"heights converted, but still labelled {vdatum(ds.crs)}")
        want = fin if (done or dat == "ellps" or not geo) else raw
        e = np.sqrt(((refcrs.physical(ds.coords, d) - want) ** 2).sum(axis=1)).astype(float)
        if not np.all(e <= (0 if d[0] == "cart" else TOL)):
            i = int(np.argmax(np.where(np.isfinite(e), e, np.inf)))
            ctx.fail(
                f"after {ops!r} ({dat}): point {i} {pts[i].tolist()} is {e[i]:.6g} m from where it should be"
                f" ({np.asarray(ds.coords)[i].tolist()})"
            )
        ctx.err("position", float(e.max()) / TOL)
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome(init, dat, d, done)


def sequences(npre, nsuf):
    for n in range(1, npre + 1):
        for p in product("LH", repeat=n):
            if "H" not in p:
                continue
            for m in range(nsuf + 1):
                for s in product("EW2", repeat=m):
                    # without a wrap before, a refusal may leave the heights unconverted
                    yield "".join(p) + "".join(s) + ("H" if m else "")


def deferred(ops, pts):
    """True if the heights may still be unconverted when the horizontal system changes"""
    if not np.any(pts[:, 0] > 180):
        return False
    pre = ops.rstrip("H") if any(c in ops for c in "EW2") else ops
    first = min((ops.index(c) for c in "EW2" if c in ops), default=len(ops))
    pre = ops[:first]
    return first < len(ops) and not ("L" in pre and "H" in pre[pre.index("L"):])


def world(ctx, dat, grid, i0, i1, alone):
    P = np.array(grid[i0:i1])
    for h in (-4000.0, 0.0, 8848.0):
        P[:, 2] = h
        groups = [P[i : i + 1] for i in range(len(P))] if alone else [P]
        for g in groups:
            ctx.at({"world": dat, "pts": g})
            world1(ctx, dat, g)


def world1(ctx, dat, g):
    ds = make("WGS84", dat, g)
    ds.to_lon180()
    ds.to_ellipsoid_height()
    c = np.asarray(ds.coords)
    want = [r[2] + undulation(dat, r[0], r[1]) for r in g]
    ctx.transitions += len(g)
    ctx.states += len(g)
    if not np.all(np.abs(c[:, 2] - want) <= 1e-7):
        i = int(np.argmax(np.abs(c[:, 2] - want)))
        ctx.fail(f"{dat}: height of {g[i].tolist()} became {c[i, 2]}, expected {want[i]}")
    dl = (c[:, 0] - g[:, 0]) / 360.0
    if not np.array_equal(c[:, 1], g[:, 1]) or np.any(np.abs(dl - np.rint(dl)) > 1e-13):
        ctx.fail(f"{dat}: converting heights moved a point horizontally")
    ctx.outcome(dat, [round(x) for x in want])


def lists(ctx, dats, inits):
    import geec.mass

    P = [pts_of(i, b) for i, b in zip(inits, itertools.cycle(("four", "three", "many")))]
    cfgs = []
    for d, i, p in zip(dats, inits, P):
        c = crsenv.dataset_conf(i, p)
        cfgs.append(dict(c, crs=dict(c["crs"], vdatum=d), density=1.0, gravity_constant=1.0))
    import geec.observer

    for ops, via in product(("LHE", "LHHE", "LHLHE", "LH2HE", "LHWH"), ("list", "mass", "observer")):
        ctx.at({"list": list(dats), "inits": list(inits)})
        ms = geec.mass.get_masses(conf({"masses": cfgs}))
        if via == "observer":
            ms = [geec.observer.get_observer(conf({"observers": c})) for c in cfgs]
        D = [INIT[i][1] for i in inits]
        for op in ops:
            if via != "list":
                for m in ms:
                    if op == "2":
                        m.to_enu(*crsenv.ORIGINS[op])
                    else:
                        {"L": m.to_lon180, "H": m.to_ellipsoid_height, "E": m.to_ecef, "W": m.to_wgs84}[op]()
            elif op == "2":
                geec.mass.to_enu(ms, *crsenv.ORIGINS[op])
            else:
                {"L": geec.mass.to_lon180, "H": geec.mass.to_ellipsoid_height, "E": geec.mass.to_ecef, "W": geec.mass.to_wgs84}[op](ms)
            D = [step(d, op) for d in D]
            ctx.transitions += 1
            if ops.startswith("LH") and op == "L":
                continue
            for k, (m, d, i, dat, p) in enumerate(zip(ms, D, inits, dats, P)):
                if INIT[i][1][0] == "enu" and "W" in ops and dat != "ellps":
                    continue  # local heights relabelled as geodetic: not covered
                fin = refcrs.physical(expect(i, dat, p), INIT[i][1])
                e = np.sqrt(((refcrs.physical(m.dataset.coords, d) - fin) ** 2).sum(axis=1)).astype(float)
                if not np.all(e <= TOL):
                    ctx.fail(f"mass {k} ({i}, {dat}) of {dats}: off by {e.max():.6g} m after {ops} ({via})")
        ctx.states += 1
        ctx.traces += 1
    ctx.outcome(dats, inits)


def worldgrid(step_):
    return [(float(lo), float(la), 0.0) for lo in np.arange(-180, 180.1, step_) for la in np.arange(-90, 90.1, step_)] + [
        (7.123, 45.678, 0.0), (359.999, -12.345, 0.0), (180.001, 3.3, 0.0), (-179.999, 3.3, 0.0)]


def cluster(lon, lat, gap, n):
    """points close to each other"""
    return np.array([(lon + gap * i, lat + gap * j, 10.0 * i) for i in range(n) for j in range(n)])


CLUSTERS = [(lo, la, gap, n) for lo in (-179.99, -70.3, 0.0, 7.12, 138.7) for la in (-33.45, 0.01, 45.68, 88.9)
            for gap in (1e-5, 1e-3, 0.02) for n in (2, 4)]


def tasks(tier):
    big = tier == "thorough"
    T = []
    for i in INIT:
        for d in DATUMS:
            for b in BATCH:
                T.append(("seq", i, d, b, 6 if big else 4, 3 if big else 2))
    for d in DATUMS:
        T.append(("cluster", d))
    n = len(worldgrid(5 if big else 10))
    for d in DATUMS:
        T.append(("world", d, 2 if big else 4, 0, len(worldgrid(2 if big else 4)), False))
        T.append(("world", d, 5 if big else 10, 0, n, False))
        for k in range(0, n, 200):
            T.append(("world", d, 5 if big else 10, k, min(n, k + 200), True))
    for a, b in product(DATUMS, repeat=2):
        T.append(("list", (a, b), ("WGS84", "AIRY")))
        T.append(("list", (a, b, a), ("WGS84", "WGS84", "WGS84")))
    if big:
        for t in product(DATUMS, repeat=3):
            T.append(("list", t, ("WGS84", "AXES", "AIRY")))
    for n in (4, 5, 9, 12, 33):
        for k in range(len(DATUMS)):
            T.append(("list", tuple(list(DATUMS)[(j + k) % len(DATUMS)] for j in range(n)), tuple(list(INIT)[(j * 3 + k) % len(INIT)] for j in range(n))))
    for a, b in product(INIT, repeat=2):
        T.append(("list", ("egm96", "egm84"), (a, b)))
    return T


def run_task(task, ctx):
    if task[0] == "seq":
        _, i, d, b, npre, nsuf = task
        for ops in sequences(npre, nsuf):
            if INIT[i][1][0] == "ellps" and deferred(ops, BATCH[b]):
                continue
            if INIT[i][1][0] != "ellps" and d != "ellps" and "W" in ops:
                if INIT[i][1][0] == "enu":
                    continue  # heights of local coordinates are not orthometric: not covered
            seq(ctx, i, d, b, ops)
        ctx.sample({"init": i, "datum": d, "batch": b})
    elif task[0] == "cluster":
        for c in CLUSTERS:
            g = cluster(*c)
            for p in (g, g[::-1].copy(), np.concatenate([g, g[:1]])):
                ctx.at({"world": task[1], "pts": p})
                world1(ctx, task[1], p)
    elif task[0] == "world":
        world(ctx, task[1], worldgrid(task[2]), task[3], task[4], task[5])
    else:
        lists(ctx, task[1], task[2])


def run_case(case, ctx):
    if "seq" in case:
        seq(ctx, case["seq"], case["datum"], case["batch"], case["ops"])
    elif "world" in case:
        world1(ctx, case["world"], np.array(case["pts"], dtype=float))
    else:
        lists(ctx, tuple(case["list"]), tuple(case["inits"]))
