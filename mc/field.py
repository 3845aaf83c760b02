"""Shared exploration of C01 (gravity) and C02 (gradient): every (body, frame,
observation point) of a finite universe, implementation against the reference."""
from fractions import Fraction as Fr

import numpy as np

import geom
from geom import FRAMES, GC, RHO, Body

KG = GC * RHO


def universe(tier, gradient):
    """task = (kind, body name or point tuple, frame name, obs set name)"""
    T = []
    cube = geom.cube_bodies()
    reps = geom.mod_symmetry(cube)
    spec = geom.special_bodies()
    big = tier == "thorough"
    # 1. every convex body on the corners of a cube, every lattice observation point
    for b in cube:
        T.append(("lat", b, "id", "L5" if not big else "L7"))
    # 2. representatives in every frame, lattice points
    for f in FRAMES:
        if f == "id":
            continue
        for b in reps:
            T.append(("lat", b, f, "L3" if not big else "L7"))
    # 3. near-boundary points: representatives and special bodies, several frames
    near_frames = ("id", "r3", "mm", "km", "ecef10r") if not big else tuple(FRAMES)
    few = ("octahedron", "slab", "needle", "wedge", "frustum", "flatroof", "negtetra", "edgepts")
    for f in near_frames:
        for b in reps:
            T.append(("near", b, f, "N"))
        for name in spec if big or f == "r3" else few:
            T.append(("near", name, f, "N"))
    # (the package takes a point 2e-16 m off a plane as lying in it, so not bodies of micrometres)
    for f in ("id", "g77", "mm", "km", "ecef100m") if not big else [f for f in FRAMES if f != "um"]:
        for b in reps + [n for n in spec if big or n in few]:
            T.append(("edge", b, f, "E"))
    # 4. special bodies, coarse lattice around them, every frame; and far points
    for f in FRAMES if big else ("id", "r7", "ecefkm", "ecef100m"):
        for name in spec:
            T.append(("box", name, f, "B"))
    for f in ("id", "g77", "km"):
        for b in reps + list(spec):
            T.append(("far", b, f, "F"))
    # other kinds of arrays for the observation point
    for f in ("id", "half"):
        T.append(("forms", tuple(reps[::2]), f, "L3"))
    # bodies with features much smaller than themselves
    for name in ("blister", "chamfer"):
        T.append(("far", name, "id", "F"))
        T.append(("lat", name, "id", "L5"))
    # bodies with hundreds of faces
    for name in geom.large_bodies():
        for f in ("id", "g77", "ecefkm") if not big else FRAMES:
            for part in range(2 if not big else 4):
                T.append(("large%d" % part, name, f, "B"))
    # 5. tetrahedra of the 3x3x3 lattice
    tets = geom.subsets(geom.LAT27, 4)
    tets = tets if big else geom.mod_symmetry(tets)
    for i in range(0, len(tets), 8 if big else 6):
        T.append(("tets", tuple(tets[i : i + (8 if big else 6)]), "id", "L3"))
    if big:
        fives = geom.mod_symmetry(geom.subsets(geom.LAT27, 5))
        for i in range(0, len(fives), 8):
            T.append(("tets", tuple(fives[i : i + 8]), "id", "L3"))
        for f in ("g77", "ecef10"):
            t2 = geom.mod_symmetry(geom.subsets(geom.LAT27, 4))
            for i in range(0, len(t2), 8):
                T.append(("tets", tuple(t2[i : i + 8]), f, "L3"))
    # heaviest first: keeps the workers busy to the end
    T.sort(key=lambda t: -(len(named(t[1])) if isinstance(t[1], str) else 8 if t[0] not in ("tets", "forms") else 0))
    return T


OBS = {
    "L3": [(x, y, z) for x in (-1, 1, 2) for y in (-1, 0, 1) for z in (-2, 1, 2, 3)],
    "L5": geom.lattice_obs(-1, 3),
    "L7": geom.lattice_obs(-2, 4),
}


def obs_of(kind, lat, hull, name):
    """[(lattice float coordinates, class)] with class in/out/bd"""
    onface = []
    if kind == "near":
        res = []
        for q, c in geom.near_obs(hull):
            res.append((tuple(float(x) for x in q), c))
        return res if len(hull.tris) < 13 else res[:: 2]
    if kind == "edge":
        return [(tuple(float(x) for x in q), c) for q, c in geom.edge_obs(hull)]
    if kind == "far":
        pts = []
        c = np.mean(np.array(lat, float), axis=0)
        s = float(np.max(np.ptp(np.array(lat, float), axis=0)))
        for d in (3, 10, 30, 100, 300, 1000, 3000):
            for u in ((1, 0, 0), (0, -1, 0), (0, 0, 1), (1, 1, 0), (-1, 1, 1), (3, -2, 1)):
                pts.append(tuple(c + d * s * np.array(u, float) / np.linalg.norm(u)))
        return [(p, "out") for p in pts]
    if kind == "box" or kind.startswith("large"):
        A = np.array(lat, float)
        lo, hi = A.min(0), A.max(0)
        pts = []
        for i in range(-1, 6):
            for j in range(-1, 6):
                for k in range(-1, 6):
                    if (i + j + k) % 2 == 0:
                        pts.append(tuple(lo + (hi - lo) * np.array([i, j, k]) / 4))
        if kind == "box":
            pts += [tuple(map(float, p)) for p in lat]
        else:
            pts = pts[int(kind[5:]) :: 8] + [tuple(map(float, p)) for p in lat[int(kind[5:]) :: 40]]
            onface = [tuple(np.mean([lat_of(hull, v) for v in poly], axis=0)) for _, poly in hull.planes[int(kind[5:]) :: 30]]
    else:
        pts = [tuple(map(float, p)) for p in OBS[name]]
    res = [(p, "bd") for p in onface]
    for p in pts:
        w, copl, col = hull.classify(p)
        res.append((p, {"in": "in", "out": "out"}.get(w, "bd") + ("c" if copl else "") + ("l" if col else "")))
    return res


def lat_of(hull, v):
    return np.array([float(Fr(c, hull.den)) for c in hull.pts[v]])


def named(name):
    return geom.special_bodies().get(name) or geom.fine_bodies().get(name) or geom.large_bodies()[name]


def body_points(b):
    return named(b) if isinstance(b, str) else [tuple(map(float, p)) for p in b]


def tolerances(body, obs, edges=True):
    """absolute tolerance on G (mGal) and T (E), per unit density*Gc"""
    D = body.dist(obs) + body.size
    n = np.sqrt(body.nfaces)
    tg = (2e-12 * D * n + body.noise * 40) * 1e5
    if not edges:
        return tg, None, None
    # T: error of the position of the planes over the distance to the nearest edge
    ed = np.maximum(body.edge_dist(obs), 1e-300)
    tt = (2e-12 * n * (1 + D / ed) + 200 * body.noise / ed) * 1e9
    return tg, tt, ed


FORMS = {
    # the same point, written in another kind of array
    "int64": lambda o: o.astype(np.int64),
    "int32": lambda o: o.astype(np.int32),
    "float32": lambda o: o.astype(np.float32),
    "reversed": lambda o: o[::-1].copy()[::-1],
    "column": lambda o: np.asfortranarray(np.stack([o, o + 1, o + 2]))[0],
    "readonly": lambda o: _ro(o),
    "bigendian": lambda o: o.astype(">f8"),
}


def _ro(o):
    o = o.copy()
    o.setflags(write=False)
    return o


def explore(task, ctx, what):
    kind, b, fname, oname = task
    if kind == "forms":
        for one in b:
            for form in FORMS:
                _forms(one, fname, form, ctx, what)
    elif kind == "tets":
        for one in b:
            _one("lat", one, fname, oname, ctx, what)
    else:
        _one(kind, b, fname, oname, ctx, what)


def _one(kind, b, fname, oname, ctx, what):
    lat = body_points(b)
    body = Body(lat, FRAMES[fname])
    ol = obs_of(kind, lat, body.hull, oname)
    obs = FRAMES[fname].pts([p for p, _ in ol])
    case0 = {"body": b, "points": body.points, "frame": fname, "kind": kind}
    ctx.at(case0)
    poly = geom.Polyhedron(body.points.copy())
    ctx.states += 1
    compare(ctx, what, poly, body, obs, [c for _, c in ol], case0)


def _forms(b, fname, form, ctx, what):
    """the kind of array that holds the point does not matter"""
    lat = body_points(b)
    body = Body(lat, FRAMES[fname])
    obs = FRAMES[fname].pts(OBS["L3"])
    if form.startswith("int") and np.any(obs != np.round(obs)):
        return
    poly = geom.Polyhedron(body.points.copy())
    ctx.states += 1
    G, T = body.field(obs)
    tg, tt, ed = tolerances(body, obs)
    with np.errstate(all="ignore"):
        for i, o in enumerate(obs):
            case = {"form": form, "body": b, "points": body.points, "frame": fname, "obs": o, "kind": "forms"}
            ctx.at(case)
            ctx.transitions += 1
            ctx.traces += 1
            try:
                g, t = poly.get_gravity(FORMS[form](o), RHO, GC, what == "T")
            except Exception as e:
                if form == "bigendian":
                    ctx.count("refused_" + form)
                    continue  # refused by the compiled kernel
                ctx.fail(f"a point given as {form} array failed: {e!r}")
            g, t = np.asarray(g, dtype=float), np.asarray(t, dtype=float)
            if not np.max(np.abs(g - G[i] * KG)) <= tg[i] * KG:
                ctx.fail(f"gravity at the point given as {form} array is {g}, not {np.array(G[i] * KG, float)}")
            if what == "T" and ed[i] > 1e-7 * body.size and body.hull.classify(OBS["L3"][i])[0] in ("in", "out"):
                if not np.max(np.abs(t - T[i] * KG)) <= tt[i] * KG:
                    ctx.fail(f"gradient at the point given as {form} array is {t}, not {np.array(T[i] * KG, float)}")
            ctx.outcome(form, *np.round(g / (KG * 1e5 * body.size), 9))


def compare(ctx, what, poly, body, obs, classes, case0):
    G, T = body.field(obs)
    G, T = G * KG, T * KG
    tg, tt, ed = tolerances(body, obs)
    tg, tt = tg * KG, tt * KG
    trace_in = -4 * np.pi * KG * 1e9
    with np.errstate(all="ignore"):
        for i in range(len(obs)):
            case = dict(case0, obs=obs[i], cls=classes[i], index=i)
            ctx.at(case)
            cls = classes[i]
            if what == "G":
                g, t = poly.get_gravity(obs[i].copy(), RHO, GC, False)
                ctx.transitions += 1
                ctx.traces += 1
                g = np.asarray(g, dtype=float)
                if g.shape != (3,) or not np.all(np.isfinite(g)):
                    ctx.fail(f"gravity is {g!r} at a point of class {cls}")
                e = float(np.max(np.abs(g - G[i])))
                ctx.err("G", e / tg[i])
                if e > tg[i]:
                    ctx.fail(
                        f"gravity {g} differs from the Newtonian attraction"
                        f" {np.array(G[i], float)} by {e:.3g} mGal (tolerance {tg[i]:.3g})"
                    )
                ctx.count("obs_" + cls)
                ctx.outcome(*np.round(g / (KG * 1e5 * body.size), 9))
            else:
                bd = cls.startswith("bd") or ed[i] < 1e-7 * body.size
                g, t = poly.get_gravity(obs[i].copy(), RHO, GC, True)
                ctx.transitions += 1
                ctx.traces += 1
                g, t = np.asarray(g, dtype=float), np.asarray(t, dtype=float)
                if t.shape != (3, 3):
                    ctx.fail(f"gradient has shape {t.shape}")
                # the flag never changes G
                e = float(np.max(np.abs(g - G[i])))
                if not e <= tg[i]:
                    ctx.fail(f"with gradient=True gravity {g} differs from {np.array(G[i], float)}")
                if i % 4 == 0:
                    # not requested: by default, or explicitly
                    g2, t2 = poly.get_gravity(obs[i].copy(), RHO, GC, *((False,) if i % 8 else ()))
                    ctx.transitions += 1
                    if np.shape(t2) != (3, 3) or np.any(np.asarray(t2) != 0):
                        ctx.fail(f"gradient is {t2!r} although it was not requested")
                    if not np.max(np.abs(g - np.asarray(g2))) <= tg[i]:
                        ctx.fail(f"gravity depends on the gradient flag: {g} / {g2}")
                if not np.all(np.isfinite(t)):
                    ctx.fail(f"gradient is {t!r} at a point of class {cls}")
                if bd:
                    ctx.count("boundary_finite")
                    continue
                e = float(np.max(np.abs(t - T[i])))
                ctx.err("T", e / tt[i])
                if e > tt[i]:
                    ctx.fail(
                        f"gradient\n{t}\ndiffers from the exact tensor\n{np.array(T[i], float)}"
                        f"\nby {e:.3g} E (tolerance {tt[i]:.3g})"
                    )
                if np.max(np.abs(t - t.T)) > tt[i]:
                    ctx.fail(f"gradient is not symmetric: {t}")
                tr = float(np.trace(t))
                want = trace_in if cls.startswith("in") else 0.0
                if cls in ("plane", "line"):
                    want = 0.0 if abs(tr) < abs(trace_in) / 2 else trace_in
                ctx.err("trace", abs(tr - want) / (3 * tt[i]))
                if abs(tr - want) > 3 * tt[i]:
                    ctx.fail(f"trace of the gradient is {tr} E, expected {want}")
                ctx.count("obs_" + cls)
                ctx.outcome(*np.round(t.ravel() / (KG * 1e9), 9))
    ctx.sample({"body": case0["body"], "frame": case0["frame"], "kind": case0["kind"],
                "observation_points": len(obs), "first": obs[0], "class": classes[0]})


def replay_case(case, ctx, what):
    b = case["body"]
    b = b if isinstance(b, str) else tuple(tuple(p) for p in b)
    if case.get("kind") == "forms":
        return _forms(b, case["frame"], case["form"], ctx, what)
    lat = body_points(b)
    body = Body(lat, FRAMES[case["frame"]])
    poly = geom.Polyhedron(np.array(case["points"], dtype=float))
    if "obs" in case:
        compare(ctx, what, poly, body, np.array([case["obs"]], dtype=float), [case["cls"]], case)
