"""C10: longitudes are wrapped to -180..180, and nothing else is touched."""
from itertools import product

import numpy as np

import crsenv
from crsenv import INIT, conf, descr

ID = "C10"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every longitude of a 0.25-degree grid of [-180, 360] and the neighbouring floats of -180, 0, 180 and"
    " 360, at every position of batches of 1 to 5 points among every combination of 12 special longitudes"
    " (pairs for 3 points and more); batches of 6 to 5000; wraps repeated 3 times; read as list and grid; 7 coordinate systems;"
    " through datasets, masses, lists of masses and observers",
    "thorough": "0.05-degree grid, every triple of special longitudes, every quadruple of 8 of them",
}
ASSUMPTIONS = ["longitudes between -180 and 360"]
init_worker = crsenv.init_worker

N = np.nextafter
SPECIAL = (-180.0, N(-180.0, 0), -0.0, 5e-324, 179.5, N(180.0, 0), 180.0, N(180.0, 360), 181.0, 270.0, N(360.0, 0), 360.0)
BASE = ((12.5, -3.0), (-90.0, 8848.0), (181.0, 190.0), (90.0, 0.0), (-33.25, 360.0))


def judge(ctx, before, after, geodetic):
    b, a = np.asarray(before, float), np.asarray(after)
    ctx.transitions += 1
    if a.shape != b.shape or a.dtype != np.float64:
        ctx.fail(f"coordinates became {a.shape} {a.dtype}")
    if not geodetic:
        if not np.array_equal(a, b):
            ctx.fail("coordinates that are not longitudes were changed")
        return
    if not np.array_equal(a[:, 1:], b[:, 1:]):
        ctx.fail("a latitude or a height changed")
    for i, (x, y) in enumerate(zip(b[:, 0], a[:, 0])):
        want = x - 360.0 if x > 180 else x
        if not (y == want):
            ctx.fail(f"longitude {x!r} became {y!r}, expected {want!r}")
        ctx.count("wrapped" if x > 180 else "kept")


def one(ctx, init, lons, via="dataset", source="list"):
    import geec.dataset
    import geec.mass
    import geec.observer

    ctx.at({"init": init, "lons": list(lons), "via": via, "source": source})
    pts = np.array([(lo,) + BASE[k % 5] for k, lo in enumerate(lons)])
    c = crsenv.dataset_conf(init, pts)
    if via == "dataset":
        ds = geec.dataset.get_dataset(conf({"d": c})["d"])
        f = ds.to_lon180
    elif via == "observer":
        o = geec.observer.get_observer(conf({"observers": c}))
        ds, f = o.dataset, o.to_lon180
    elif via == "mass":
        o = geec.mass.get_masses(conf({"masses": [dict(c, density=1.0, gravity_constant=1.0)]}))[0]
        ds, f = o.dataset, o.to_lon180
    else:
        o = geec.mass.get_masses(
            conf({"masses": [dict(crsenv.dataset_conf(j, pts), density=1.0, gravity_constant=1.0) for j in (init, "WGS84", init)]})
        )
        ds = o[0].dataset

        def f():
            geec.mass.to_lon180(o)

    want = pts.copy()
    for _ in range(3):
        f()
        judge(ctx, pts, ds.coords, INIT[init][1][0] == "ellps")
        if descr(ds.crs) != INIT[init][1]:
            ctx.fail("the description of the coordinate system changed")
        if via == "masses":
            judge(ctx, pts, o[1].dataset.coords, True)
            judge(ctx, pts, o[2].dataset.coords, INIT[init][1][0] == "ellps")
    ctx.states += 1
    ctx.traces += 1


def grid(ctx, xs, ys, zs):
    """coordinates made from a regular grid have another memory layout"""
    import geec.dataset

    ctx.at({"grid": [xs, ys, zs]})
    c = {"points": [], "file_path": None, "crs": INIT["AIRY"][0],
         "grid": {"xstart_xend_xstep": list(xs), "ystart_yend_ystep": list(ys), "zstart_zend_zstep": list(zs)}}
    ds = geec.dataset.get_dataset(conf({"d": c})["d"])
    before = np.array(ds.coords, dtype=float)
    for _ in range(2):
        ds.to_lon180()
        judge(ctx, before, ds.coords, True)
    ctx.states += 1


GRIDS = [
    ((-180, 361, 7.5), (-90, 91, 30), (0, 400, 200)),
    ((170.0, 190.5, 0.5), (-10, 10, 10), (0, 1, 1)),
    ((0, 360, 1), (0, 1, 1), (-5.5, 0, 1)),
    ((180.0, 180.25, 0.0625), (180, 200, 5), (0, 1, 1)),
    ((350, 361, 1), (0, 3, 1), (0, 3, 1)),
]


def tasks(tier):
    big = tier == "thorough"
    T = [("grid", g) for g in GRIDS]
    st = 0.05 if big else 0.25
    lons = [float(x) for x in np.arange(-180, 360 + st / 2, st)]
    for i in range(0, len(lons), 120):
        T.append(("sweep", tuple(lons[i : i + 120])))
    for init in INIT:
        T.append(("combos", init, big))
    for init in ("WGS84", "AIRY", "ECEF"):
        T.append(("sizes", init, 5000))
    return T


def run_task(task, ctx):
    if task[0] == "grid":
        grid(ctx, *task[1])
    elif task[0] == "sweep":
        for lo in task[1]:
            for e in (lo, float(N(lo, -1e9)), float(N(lo, 1e9))):
                if -180 <= e <= 360:
                    one(ctx, "WGS84", (e,))
                    ctx.outcome(e)
                    if e > 179 and e < 182 or e == lo and lo % 2 == 0:
                        one(ctx, "AIRY", (e,), "masses")
                        one(ctx, "WGS84", (e, e), "observer")
                        one(ctx, "ENUA", (e, e), "masses")
        one(ctx, "AXES", task[1])
        ctx.sample({"sweep": task[1][:3]})
    elif task[0] == "sizes":
        for n in sorted(set(range(6, 70)) | {2**k + j for k in range(7, 13) for j in (-1, 0, 1)} | {100, 1000, 1001, task[2]}):
            for shift in (0, 5):
                one(ctx, task[1], [SPECIAL[(i * 7 + shift) % len(SPECIAL)] for i in range(n)])
    else:
        _, init, big = task
        for k in range(1, 6):
            for pos in product(range(k), repeat=min(k, 2)):
                if len(set(pos)) < len(pos) or (len(pos) == 2 and pos[0] > pos[1]):
                    continue
                for combo in product(SPECIAL, repeat=len(pos)):
                    lons = [10.0 + 60 * j for j in range(k)]
                    for p, v in zip(pos, combo):
                        lons[p] = v
                    one(ctx, init, lons)
                    ctx.outcome(init, combo)
        for via in ("mass", "masses", "observer"):
            for a, b in product(SPECIAL, repeat=2):
                one(ctx, init, (a, b, 200.0), via)
                one(ctx, init, (a, b), via)
            for a in SPECIAL:
                one(ctx, init, (a,), via)
        if big:
            for t in product(SPECIAL, repeat=3):
                one(ctx, init, t)
            for t in product(SPECIAL[::2] + SPECIAL[7:9], repeat=4):
                one(ctx, init, t)
        ctx.sample({"init": init, "special": SPECIAL})


def run_case(case, ctx):
    if "grid" in case:
        grid(ctx, *case["grid"])
    else:
        one(ctx, case["init"], case["lons"], case["via"], case["source"])
