"""C06: the result does not depend on the choice of axes, origin or units of length."""
import numpy as np

import geom
from geom import EPS, GC, RHO, Body, Frame, FRAMES

ID = "C06"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "cube subsets' representatives and special bodies x all 48 signed axis permutations, 8 general"
    " rotations, 7 translations (up to Earth radius), 9 scales (2^-20..2^30) x up to 12 observation points in every"
    " position class (outside, inside, face, edge, vertex, coplanar, in line)",
    "thorough": "as quick with all lattice tetrahedra modulo symmetry, 40 observation points and products of"
    " rotations, translations and scales",
}
ASSUMPTIONS = ["compares the implementation with itself; the absolute value is decided by C01 and C02"]

KG = RHO * GC


def _signed():
    out = []
    for i, (p, s) in enumerate(geom.SYM48):
        R = np.zeros((3, 3))
        for a in range(3):
            R[a, p[a]] = s[a]
        out.append((f"sym{i}", R, 1.0, (0, 0, 0)))
    return out


def motions(big):
    M = _signed()
    for r in ("r3", "r7", "g77", "z30", "tiny", "cyc", "xy"):
        M.append(("rot_" + r, np.array(geom.ROT[r], dtype=float), 1.0, (0, 0, 0)))
    M.append(("rot_x", np.array(geom._rodrigues((5, 1, 2), 200.0), dtype=float), 1.0, (0, 0, 0)))
    for t in ((1, 0, 0), (0, -3, 0.5), (100, 200, -300), (1e4, -1e4, 1e4), (4198944, 174747, 4781887),
              (-6378137, 0, 0), (0, 0, 6356752)):
        M.append(("t%s" % (t,), np.eye(3), 1.0, t))
    for e in (-20, -10, -3, -1, 1, 3, 10, 20, 30):
        M.append((f"s{e}", np.eye(3), 2.0**e, (0, 0, 0)))
    if big:
        for r in ("r3", "g77", "z30"):
            for s in (0.001, 7.0, 1e5):
                for t in ((0, 0, 0), (4198944, 174747, 4781887)):
                    M.append((f"{r}_{s}_{t}", np.array(geom.ROT[r], dtype=float), s, t))
    return M


def setup():
    geom.load()


def tasks(tier):
    big = tier == "thorough"
    reps = geom.mod_symmetry(geom.cube_bodies())
    T = [(b, 40 if big else 12, big) for b in list(geom.special_bodies()) + reps]
    if big:
        T += [(b, 12, False) for b in geom.mod_symmetry(geom.subsets(geom.LAT27, 4))]
    return T


def pick_obs(body, n):
    """a few observation points of every position class, in enumeration order"""
    A = np.array(body.lat, float)
    lo, hi = A.min(0), A.max(0)
    per = {}
    cand = [tuple(lo + (hi - lo) * np.array([i, j, k]) / 4) for i in range(-1, 6) for j in range(-1, 6) for k in range(-1, 6)]
    out = []
    for p in cand[3:] + cand[:3]:
        w, copl, col = body.hull.classify(p)
        key = (w, copl, col)
        if per.get(key, 0) < max(2, n // 6):
            per[key] = per.get(key, 0) + 1
            out.append((tuple(float(x) for x in p), w))
    return out[:n] if n < len(out) else out


def run_task(task, ctx):
    b, n, big = task
    lat = geom.special_bodies()[b] if isinstance(b, str) else [tuple(map(float, p)) for p in b]
    body = Body(lat, FRAMES["id"])
    obs = pick_obs(body, n)
    A = np.array(lat, dtype=float)
    base = geom.Polyhedron(A.copy())
    O = np.array([o for o, _ in obs])
    ed = body.edge_dist(O)
    with np.errstate(all="ignore"):
        ref = [base.get_gravity(o.copy(), RHO, GC, True) for o in O]
    for name, R, s, t in motions(big):
        one(ctx, b, body, A, O, obs, ed, ref, name, R, s, t)
    ctx.sample({"body": b, "observation_points": [list(o) for o, _ in obs[:3]], "motions": len(motions(big))})


def one(ctx, b, body, A, O, obs, ed, ref, name, R, s, t):
    t = np.array(t, float)
    P2 = s * (A @ R.T) + t
    O2 = s * (O @ R.T) + t
    ctx.at({"body": b, "motion": name, "points": P2})
    poly = geom.Polyhedron(P2)
    ctx.states += 1
    # rounding of the moved coordinates, in units of the original body
    noise = 8 * EPS * float(np.max(np.abs(P2))) / s
    L = body.size
    with np.errstate(all="ignore"):
        for i, o in enumerate(O2):
            ctx.at({"body": b, "motion": name, "points": P2, "obs": o, "original_obs": O[i], "class": obs[i][1]})
            g, T = poly.get_gravity(o.copy(), RHO, GC, True)
            ctx.transitions += 1
            ctx.traces += 1
            wg = s * (R @ ref[i][0])
            wT = R @ ref[i][1] @ R.T
            # |log| of the distance to an edge bounds the condition of G; faces and volume its size
            D = np.linalg.norm(O[i] - body.centre) + L
            tg = s * KG * 1e5 * (1e-11 * D * np.sqrt(body.nfaces) + 60 * noise * (1 + body.nfaces**0.5))
            e = float(np.max(np.abs(g - wg)))
            ctx.err("G", e / tg)
            if not e <= tg:
                ctx.fail(f"moved by {name}: gravity {g}, expected {wg} (difference {e:.3g}, tolerance {tg:.3g})")
            if obs[i][1] in ("in", "out"):
                d = max(ed[i], 1e-300)
                tt = KG * 1e9 * (1e-11 * np.sqrt(body.nfaces) * (1 + D / d) + 400 * noise / d * (1 + body.nfaces**0.5))
                e = float(np.max(np.abs(T - wT)))
                ctx.err("T", e / tt)
                if not e <= tt:
                    ctx.fail(f"moved by {name}: gradient\n{T}\nexpected\n{wT}\n(difference {e:.3g}, tolerance {tt:.3g})")
            ctx.outcome(name, np.round(g / (s * KG * L), 6).tobytes())


def run_case(case, ctx):
    b = case["body"]
    b = b if isinstance(b, str) else tuple(tuple(p) for p in b)
    for big in (False, True):
        for name, R, s, t in motions(big):
            if name == case["motion"]:
                lat = geom.special_bodies()[b] if isinstance(b, str) else [tuple(map(float, p)) for p in b]
                body = Body(lat, FRAMES["id"])
                A = np.array(lat, float)
                O = np.array([case["original_obs"]]) if "original_obs" in case else np.zeros((0, 3))
                base = geom.Polyhedron(A.copy())
                ref = [base.get_gravity(o, RHO, GC, True) for o in O]
                one(ctx, b, body, A, O, [(tuple(o), case["class"]) for o in O], body.edge_dist(O), ref, name, R, s, t)
                return
