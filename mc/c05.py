"""C05: superposition -- fields of bodies add up, scale with density and gravitational
constant, and a station accumulates exactly what it was asked to."""
from itertools import combinations, product

import numpy as np

import geom
from geom import GC, RHO

ID = "C05"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every sequence of 3 operations on two live stations (21-letter alphabet: one body, lists of bodies,"
    " repeated and overlapping bodies, empty list, three densities and two constants, gradient on/off, rejected"
    " lists); every split of a cube by 13 lattice planes and into 8 octants x 125 observation points; every pair"
    " of 9 densities x 6 constants x 3 bodies x 6 points; requests of 0 to 33, 63, 64, 65, 100, 129, 200, 257 and 513 bodies, at once, in halves and one by one",
    "thorough": "sequences of 4 operations; splits of the cube subsets' representatives by every lattice plane x 343"
    " points",
}
ASSUMPTIONS = ["the single-body field itself is decided by C01 and C02"]

BODY = {
    "A": [(0.0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2)],
    "B": [(3.0, 0, 0), (5, 0, 0), (3, 2, 0), (3, 0, 2), (4, 3, 1)],
    "C": [(1.0, 0, 0), (3, 0, 0), (1, 2, 0), (1, 0, 2)],  # overlaps A
}
STN = {"s": (1.0, 4.0, -2.0), "t": (0.25, 0.5, 0.25), "u": (4.0, 0.0, 0.0)}
PAR = {"r": (RHO, GC), "q": (-300.7, GC), "k": (1000, 6.6e-11)}


def _ops():
    o = []
    for s in ("s", "t"):
        for g in (False, True):
            o.append(("go", s, "A", "r", g))
            o.append(("go", s, "AB", "q", g))
    o += [
        ("go", "s", "B", "k", True),
        ("go", "s", "AA", "r", True),
        ("go", "s", "ACB", "r", False),
        ("go", "s", "BCA", "r", False),
        ("go", "t", "BA", "k", True),
        ("go", "s", "", "r", True),
        ("go", "s", "[A]", "r", False),
        ("go", "u", "C", "r", True),
        ("go", "u", "ABC", "k", False),
        ("bad", "s"),
        ("bad2", "t"),
        ("badfirst", "s"),
    ]
    return o


OPS = _ops()
_poly = {}
_unit = {}


def setup():
    geom.load()
    with np.errstate(all="ignore"):
        for b, pts in BODY.items():
            for s, o in STN.items():
                p = geom.Polyhedron(np.array(pts))
                g, t = p.get_gravity(np.array(o), 1.0, 1.0, True)
                _unit[b, s] = (np.array(g), np.array(t))


def polys():
    if not _poly:
        for b, pts in BODY.items():
            _poly[b] = geom.Polyhedron(np.array(pts))
    return _poly


def play(hist, ctx):
    import geec.station

    P = polys()
    st = {k: geec.station.Station(np.array(v)) for k, v in STN.items()}
    want = {k: [np.zeros(3), np.zeros((3, 3)), 0.0] for k in STN}
    for n, op in enumerate(hist):
        ctx.transitions += 1
        ctx.at({"history": hist[: n + 1]})
        if op[0] == "go":
            _, s, names, par, grad = op
            aslist = names.startswith("[") or len(names) != 1
            names = names.strip("[]")
            arg = [P[c] for c in names] if aslist else P[names]
            keep = list(arg) if aslist else None
            rho, gc = PAR[par]
            if grad:
                st[s].compute_gravity(arg, rho, gc, gradient=True)
            else:  # gradients are not computed by default
                st[s].compute_gravity(arg, rho, gc)
            if aslist and (len(arg) != len(keep) or any(x is not y for x, y in zip(arg, keep))):
                ctx.fail("the caller's list of bodies was changed")
            for c in names:
                want[s][0] = want[s][0] + rho * gc * _unit[c, s][0]
                if grad:
                    want[s][1] = want[s][1] + rho * gc * _unit[c, s][1]
                want[s][2] += abs(rho * gc) * 5
        else:
            bad = {"bad": [P["A"], 3], "bad2": "body", "badfirst": [None, P["A"]]}[op[0]]
            try:
                st[op[1]].compute_gravity(bad, RHO, GC, True)
            except TypeError:
                ctx.count("rejected")
            else:
                ctx.fail("compute_gravity accepted something that is not a body")
        for k in STN:
            g, t = np.asarray(st[k].G, float), np.asarray(st[k].T, float)
            tol = 1e-11 * want[k][2]
            if g.shape != (3,) or t.shape != (3, 3):
                ctx.fail(f"station {k}: G/T have shapes {g.shape}/{t.shape}")
            if not np.max(np.abs(g - want[k][0])) <= tol * 1e5:
                ctx.fail(f"after {list(hist[: n + 1])}, station {k} has G={g}, the sum is {want[k][0]}")
            if not np.max(np.abs(t - want[k][1])) <= tol * 1e9:
                ctx.fail(f"after {list(hist[: n + 1])}, station {k} has T=\n{t}\nthe sum is\n{want[k][1]}")
            if not np.array_equal(np.asarray(st[k].coord), np.array(STN[k])):
                ctx.fail(f"the coordinates of station {k} changed")
    ctx.outcome(*[np.round(np.asarray(st[k].G) / 1e-2, 9).tobytes() for k in STN])


# --- splits -----------------------------------------------------------------------
PLANES = [(1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1), (1, 1, 0, 2), (1, 0, 1, 2), (0, 1, 1, 2), (1, -1, 0, 0),
          (1, 0, -1, 0), (0, 1, -1, 0), (1, 1, 1, 3), (1, 1, -1, 1), (1, -1, 1, 1), (-1, 1, 1, 1)]


def clip(pts, pl, sign):
    """corners of the part of the convex hull of pts on one side of a plane (exact for the lattice)"""
    a = np.array(pl[:3], float)
    d = pl[3]
    h = {p: sign * (float(np.dot(a, p)) - d) for p in pts}
    out = [p for p in pts if h[p] >= 0]
    for p, q in combinations(pts, 2):
        if h[p] * h[q] < 0:
            t = h[p] / (h[p] - h[q])
            out.append(tuple((np.array(p) * (1 - t) + np.array(q) * t).tolist()))
    uniq = []
    for p in out:
        if p not in uniq:
            uniq.append(p)
    return uniq


def split_task(body, parts, obs, ctx):
    import geec.station

    whole = geom.Polyhedron(np.array(body))
    pp = [geom.Polyhedron(np.array(p)) for p in parts]
    hull = geom.Hull(body)
    subs = [geom.Hull(p) for p in parts]
    if sum(h.volume for h in subs) != hull.volume:
        ctx.count("skipped_inexact_split")
        return
    ctx.states += 1
    for o in obs:
        ctx.at({"split": body, "parts": parts, "obs": o})
        cls = [h.classify(o)[0] for h in subs + [hull]]
        grad = all(c in ("in", "out") for c in cls)
        a, b = geec.station.Station(np.array(o)), geec.station.Station(np.array(o))
        with np.errstate(all="ignore"):
            a.compute_gravity(whole, RHO, GC, grad)
            b.compute_gravity(pp, RHO, GC, grad)
        ctx.transitions += 1
        ctx.traces += 1
        k = RHO * GC * 2
        if not np.max(np.abs(a.G - b.G)) <= 1e-10 * k * 1e5:
            ctx.fail(f"whole body: {a.G}, sum of its parts: {b.G}")
        if not np.max(np.abs(a.T - b.T)) <= 1e-9 * k * 1e9:
            ctx.fail(f"whole body:\n{a.T}\nsum of its parts:\n{b.T}")
        ctx.outcome(np.round(a.G, 12).tobytes())
    ctx.count("splits")


DENS = [RHO, 1000, 1, 0, -2670.0, 1e-6, 2.5e9, 1025.3, -0.1]
GCS = [GC, 1.0, 1, 0.0, -GC, 6.67408e-5]


def scale_task(b, ctx):
    for s, o in STN.items():
        for rho, gc, grad in product(DENS, GCS, (False, True)):
            for r in (rho, np.float64(rho)):
                ctx.at({"scale": b, "obs": s, "density": float(rho), "Gc": gc, "gradient": grad})
                with np.errstate(all="ignore"):
                    g, t = polys()[b].get_gravity(np.array(o), r, gc, *((True,) if grad else ()))
                ctx.transitions += 1
                ctx.traces += 1
                k = abs(rho * gc)
                ug, ut = _unit[b, s]
                if not np.max(np.abs(g - rho * gc * ug)) <= 1e-11 * k * 5e5:
                    ctx.fail(f"density {rho}, Gc {gc}: gravity {g} is not {rho * gc} times {ug}")
                if not np.max(np.abs(t - (rho * gc * ut if grad else 0))) <= 1e-11 * k * 5e9:
                    ctx.fail(f"density {rho}, Gc {gc}: gradient {t} is not {rho * gc} times {ut}")
                ctx.outcome(np.asarray(g).tobytes())
    ctx.states += 1


def long_task(n, ctx):
    """any number of bodies in one request, or in several"""
    P = polys()
    names = [("ABC"[(i * i + i // 3) % 3]) for i in range(n)]
    for s, o in STN.items():
        for grad in (False, True):
            for cuts in ((n,), (n // 2, n - n // 2), (1,) * n):
                ctx.at({"long": n})
                import geec.station

                st = geec.station.Station(np.array(o))
                k = 0
                with np.errstate(all="ignore"):
                    for c in cuts:
                        bodies = [P[b] for b in names[k : k + c]]
                        st.compute_gravity(bodies[0] if c == 1 and k % 2 else bodies, 1025.3, 1.0, grad)
                        k += c
                ctx.transitions += 1
                ctx.traces += 1
                g = 1025.3 * sum((_unit[b, s][0] for b in names[:k]), np.zeros(3))
                t = 1025.3 * sum((_unit[b, s][1] for b in names[:k]), np.zeros((3, 3))) * grad
                tol = 1e-11 * 1025.3 * 5 * max(k, 1)
                if not np.max(np.abs(np.asarray(st.G) - g)) <= tol * 1e5:
                    ctx.fail(f"{k} bodies in requests of {cuts}: G={st.G}, the sum is {g}")
                if not np.max(np.abs(np.asarray(st.T) - t)) <= tol * 1e9:
                    ctx.fail(f"{k} bodies in requests of {cuts}: T={st.T}, the sum is {t}")
    ctx.states += 1
    ctx.outcome("long", n)


def tasks(tier):
    big = tier == "thorough"
    T = [("seq", i, 3 if big else 2) for i in range(len(OPS))]
    if big:
        T = [("seq2", i, j, 2) for i in range(len(OPS)) for j in range(len(OPS))]
    cube = tuple(map(tuple, geom.CUBE8))
    for pl in PLANES:
        T.append(("split", cube, pl))
    T.append(("octants",))
    if big:
        for b in geom.mod_symmetry(geom.cube_bodies()):
            for pl in PLANES:
                T.append(("split", b, pl))
    T += [("scale", b) for b in BODY]
    T += [("long", n) for n in list(range(34)) + [63, 64, 65, 100, 129, 200, 257, 513] + ([1000, 5000] if big else [])]
    return T


def run_task(task, ctx):
    obs = [tuple(map(float, o)) for o in geom.lattice_obs(-1, 3)]
    if task[0] in ("seq", "seq2"):
        pre = tuple(OPS[i] for i in task[1:-1])
        for tail in product(OPS, repeat=task[-1]):
            with np.errstate(all="ignore"):
                play(pre + tail, ctx)
            ctx.states += 1
            ctx.traces += 1
        ctx.sample({"history": pre + tail})
    elif task[0] == "split":
        body = [tuple(map(float, p)) for p in task[1]]
        parts = [clip(body, task[2], s) for s in (1, -1)]
        if all(geom.nondegenerate([tuple(p) for p in q]) for q in parts):
            split_task(body, parts, obs, ctx)
    elif task[0] == "octants":
        body = [tuple(map(float, p)) for p in geom.CUBE8]
        parts = [[(x + a, y + b, z + c) for a in (0.0, 1) for b in (0.0, 1) for c in (0.0, 1)]
                 for x in (0.0, 1) for y in (0.0, 1) for z in (0.0, 1)]
        split_task(body, parts, obs, ctx)
    elif task[0] == "long":
        long_task(task[1], ctx)
    else:
        scale_task(task[1], ctx)


def run_case(case, ctx):
    from core import _tuplify

    if "history" in case:
        play(_tuplify(case["history"]), ctx)
    elif "split" in case:
        split_task([tuple(p) for p in case["split"]], [[tuple(p) for p in q] for q in case["parts"]],
                   [tuple(case["obs"])], ctx)
    elif "long" in case:
        long_task(case["long"], ctx)
    else:
        scale_task(case["scale"], ctx)
