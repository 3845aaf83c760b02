"""C12: each setting comes from the most specific configuration that gives it."""
import copy
from itertools import product

import clienv

ID = "C12"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every setting of the configuration file (31 leaves) x {absent, value, empty or zero, null}^2 in the given file and in"
    " the user's file, with the packaged default below; every pair of settings x which of the layers gives which; every number of"
    " masses (0 to 3; 5 to 34 in one or both) in each layer; every section null in either layer; every history of 3 set-ups over 6 environments; presence, emptiness,"
    " absence and 7 unreadable contents of the files; 6 environments x 6 spellings of the given path among 57 stray files and with 7 stray environment variables",
    "thorough": "as quick, with two values per setting, every triple of 12 settings, and histories of 4",
}
ASSUMPTIONS = [
    "the user's file is ~/.config/geec/config.yaml",
    "the packaged default is read from the working tree by the oracle, as YAML",
]
setup = clienv.setup
init_worker = clienv.init_worker

M = ("masses", 0)
C = ("density", "gravity_constant", "file_path", "points")
K = ("ref", "name", "semimajor_axis", "semiminor_axis", "longitude_origin", "latitude_origin", "altitude_origin")
LEAVES = (
    [M + (c,) for c in C]
    + [M + ("crs", k) for k in K + ("vdatum",)]
    + [("observers", c) for c in ("points", "file_path")]
    + [("observers", "grid", g) for g in ("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep")]
    + [("observers", "crs", k) for k in K]
)
ABSENT = "<absent>"


def value(leaf, layer, k=0):
    n = 10 * (layer + 1) + k
    last = leaf[-1]
    if last in ("ref", "name", "vdatum", "file_path"):
        return f"{last}{n}"
    if last == "points":
        return [[float(n), 0.0, 0.5], [1.0, n + 0.25, 2]]
    if last.startswith(("xstart", "ystart", "zstart")):
        return [0, float(n), 0.5]
    return n + 0.125


def falsy(leaf):
    """values that are given, though a careless test takes them for absent"""
    v = value(leaf, 0)
    return [[]] if isinstance(v, list) else [""] if isinstance(v, str) else [0.0, 0, -1.5]


def put(d, leaf, v):
    """nested dictionaries and lists for a path"""
    cur = d
    for i, k in enumerate(leaf):
        nxt = leaf[i + 1] if i + 1 < len(leaf) else None
        if isinstance(k, int):
            while len(cur) <= k:
                cur.append({})
            if nxt is None:
                cur[k] = v
            else:
                cur = cur[k]
        elif nxt is None:
            cur[k] = v
        else:
            if k not in cur:
                cur[k] = [] if isinstance(nxt, int) else {}
            cur = cur[k]


def default():
    import os

    import yaml

    import geec

    p = os.path.join(os.path.dirname(os.path.abspath(geec.__file__)), "cfg", "config_default.yaml")
    return yaml.safe_load(open(p))


def lookup(d, leaf):
    cur = d
    for k in leaf:
        try:
            cur = cur[k]
        except (KeyError, IndexError, TypeError):
            return ABSENT
    return cur


def resolve(layers, leaf):
    """the first layer which gives the leaf"""
    for d in layers:
        v = lookup(d, leaf) if d is not None else ABSENT
        if not (isinstance(v, str) and v == ABSENT):
            return v
    return ABSENT


def get(cfg, leaf):
    v = cfg
    for k in leaf:
        v = v[k]
    return v.get()


def config(user, home):
    """set up with the given file and user's file (dict, None: no file, text: raw)"""
    import geec.config

    txt = {}
    for k, d in (("user", user), ("home", home)):
        txt[k] = d if (d is None or isinstance(d, str)) else (clienv.yaml(d) if d else "")
    clienv.home_config(txt["home"])
    arg = clienv.write("user.yaml", txt["user"]) if txt["user"] is not None else ""
    return geec.config.setup(arg)


def audit(ctx, cfg, user, home, dflt, leaves=LEAVES, nm=None):
    lay = [user, home, dflt]
    for leaf in leaves:
        want = resolve(lay, leaf)
        ctx.transitions += 1
        try:
            got = get(cfg, leaf)
        except Exception as e:
            got = ABSENT
        if got != want or type(got) is not type(want):
            ctx.fail(f"{'.'.join(map(str, leaf))} is {got!r}, expected {want!r}")
    n = len(list(cfg["masses"]))
    want = next(len(d["masses"]) for d in lay if d and d.get("masses") is not None)
    if n != want:
        ctx.fail(f"{n} masses, expected {want}")


def show(cfg):
    import geec.config

    geec.config.show(cfg)


def base():
    return {}


def layers(ctx, spec):
    """spec: [(leaf, user?, home?)] with ABSENT / value / None"""
    user, home = {}, {}
    for leaf, u, h in spec:
        if u != ABSENT:
            put(user, leaf, u)
        if h != ABSENT:
            put(home, leaf, h)
    ctx.at({"layers": [[list(l), u, h] for l, u, h in spec]})
    cfg = config(user or None, home or None)
    d = default()
    audit(ctx, cfg, user or None, home or None, d)
    show(cfg)
    audit(ctx, cfg, user or None, home or None, d, [s[0] for s in spec])
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome([(l, u, h) for l, u, h in spec])


ENVS = [
    (None, None),
    ({"masses": [{"density": 7.5}]}, None),
    (None, {"masses": [{"density": 8.5, "crs": {"ref": "cart"}}], "observers": {"crs": {"name": "grs80"}}}),
    ({"masses": [{"crs": {"ref": "enu"}}, {"density": 3.0}]}, {"masses": [{"density": 8.5, "crs": {"ref": "cart"}}]}),
    ({"observers": {"points": [[1.0, 2.0, 3.0]], "crs": {"name": None}}}, {"observers": {"crs": {"name": "moon", "ref": "ecef"}}}),
    ({}, {}),
]


def history(ctx, seq):
    """set-ups one after the other in one process: no trace of the earlier ones; the earlier
    configuration objects keep what they read (nothing is read twice)"""
    clienv.fresh()
    ctx.at({"history": list(seq)})
    live = []
    d = default()
    for k in seq:
        u, h = ENVS[k]
        cfg = config(u, h)
        audit(ctx, cfg, u, h, d)
        for c, (uu, hh) in live:
            audit(ctx, c, uu, hh, d)
        live.append((cfg, (u, h)))
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome(seq)


def masses(ctx, nu, nh):
    """number of masses: that of the most specific list; settings of each by position"""
    ctx.at({"masses": [nu, nh]})

    def lay(n, layer):
        if n is None:
            return None
        out = {"masses": []}
        for i in range(n):
            m = {}
            for leaf in LEAVES:
                if leaf[:2] == M and (hash_(leaf) + i + layer) % 2:
                    put({"masses": [m]}, leaf, value(leaf, layer, i))
            out["masses"].append(m)
        return out

    u, h = lay(nu, 0), lay(nh, 1)
    leaves = LEAVES + [("masses", i) + l[2:] for l in LEAVES if l[:2] == M for i in range(1, max(3, nu or 0, nh or 0))]
    d = default()
    cfg = config(u, h)
    audit(ctx, cfg, u, h, d, leaves)
    ctx.states += 1
    ctx.traces += 1


def hash_(leaf):
    return sum(map(ord, "".join(map(str, leaf))))


def files(ctx):
    """files which cannot be read are refused, not skipped"""
    import geec.config

    d = default()
    clienv.fresh()
    bad = ["masses: [\n - x: {", "masses:\n\t- x: 1\n", "- a\n- b\n", "5\n", "some text\n", "masses: {x: 1\n", "a: 'b\n"]
    for what, text in [("unparsable", t) for t in bad]:
        ctx.at({"files": what})
        for who in ("user", "home"):
            try:
                config(text if who == "user" else None, text if who == "home" else None)["masses"].get()
            except Exception:
                ctx.count("refused")
                ctx.transitions += 1
            else:
                ctx.fail(f"{what} {who} file ignored")
    clienv.home_config(None)
    for missing in ("nowhere.yaml", "/nonexistent/x.yaml"):
        ctx.at({"files": missing})
        ctx.transitions += 1
        try:
            geec.config.setup(missing)["masses"].get()
        except Exception:
            ctx.count("refused")
        else:
            ctx.fail(f"missing file {missing} ignored")
    for u, h in product((None, {}, "# nothing\n"), repeat=2):
        ctx.at({"files": [u, h]})
        audit(ctx, config(u, h), None, None, d)
        ctx.states += 1
    for none in ("", None):
        ctx.at({"files": repr(none)})
        clienv.home_config(None)
        audit(ctx, geec.config.setup(none), None, None, d)
        ctx.states += 1
    ctx.at({"files": "no argument"})
    audit(ctx, geec.config.setup(), None, None, d)


def clutter(ctx):
    """only the three documented files count: others nearby change nothing"""
    import os

    import geec.config

    d = default()
    junk = {"masses": [{"density": -9.75, "crs": {"ref": "junk"}}, {}], "observers": {"points": [[9, 9, 9]]}}
    names = ("config_default.yaml", "config_template.yaml", "config.yml", "geec.yaml", "config.yaml.bak", "config.yaml~", ".config.yaml", "user.yml", "config.json")
    environ = {"GEEC__OBSERVERS__FILE_PATH": "env.csv", "GEEC_OBSERVERS__FILE_PATH": "env.csv", "GEEC__OBSERVERS__CRS__REF": "cart", "GEEC__MASSES__0__DENSITY": "1.5",
               "GEEC_MASSES__0__DENSITY": "1.5", "GEEC_CONFIG": "config.yml", "GEEC_CFG": "config.yml"}
    for k, (u, h) in enumerate(ENVS):
        for given in ("user.yaml", "sub/user.yaml", "user.cfg", "user", "ABS", "config.yaml"):
            home, work = clienv.fresh()
            for n in names:
                for where in (os.path.join(home, ".config", "geec"), os.path.join(home, ".config"), home, work, os.path.join(work, "sub")):
                    clienv.write(os.path.join(where, n), clienv.yaml(junk))
            for n in ("user.yaml", "user.cfg", "user", "abs.yaml"):  # same name as the given file, elsewhere
                for where in (os.path.join(home, ".config", "geec"), home, os.path.join(work, "elsewhere")):
                    clienv.write(os.path.join(where, n), clienv.yaml(junk))
            ctx.at({"clutter": [k, given]})
            clienv.home_config(None if h is None else (clienv.yaml(h) if h else ""))
            arg = ""
            if u is not None:
                arg = os.path.join(work, "x", "abs.yaml") if given == "ABS" else given
                clienv.write(arg, clienv.yaml(u) if u else "")
            before = clienv.tree(home, work)
            for env in ({}, environ):
                os.environ.update(env)
                try:
                    audit(ctx, geec.config.setup(arg), u, h, d)
                finally:
                    for v in env:
                        os.environ.pop(v, None)
            if clienv.tree(home, work) != before:
                ctx.fail("a set-up changed files")
            ctx.states += 1
            ctx.traces += 1


SECTIONS = [("masses",), M, M + ("crs",), ("observers",), ("observers", "grid"), ("observers", "crs")]
NULL = "<null section>"


def through(layers, leaf):
    """as resolve, where a section given as null hides what is below it"""
    for d in layers:
        cur = d if d is not None else ABSENT
        for k in leaf:
            if cur is None:
                return NULL
            try:
                cur = cur[k]
            except (KeyError, IndexError, TypeError):
                cur = ABSENT
                break
        if not (isinstance(cur, str) and cur == ABSENT):
            return cur
    return ABSENT


def section(ctx, sec, layer, other):
    """a whole section is null in one layer: nothing below it comes from a less specific one"""
    ctx.at({"section": [list(sec), layer, other]})
    docs = [{}, {}]
    if other is not None:
        for leaf in LEAVES:
            if (hash_(leaf) + other) % 2:
                put(docs[1 - layer], leaf, value(leaf, 1 - layer))
    for leaf in LEAVES:
        if leaf[: len(sec)] != sec and other == 1:
            put(docs[layer], leaf, value(leaf, layer))
    put(docs[layer], sec, None)
    cfg = config(docs[0] or None, docs[1] or None)
    lay = docs + [default()]
    for leaf in LEAVES:
        want = through(lay, leaf)
        ctx.transitions += 1
        try:
            got = get(cfg, leaf)
        except Exception:
            got = NULL
        if (NULL if got is None else got) != (NULL if want is None else want):
            ctx.fail(f"{'.'.join(map(str, leaf))} is {got!r}, expected {want!r}")
    if layer == 0 and sec == ("masses",):
        try:
            n = len(list(cfg["masses"]))
        except Exception:
            n = 0
        if n:
            ctx.fail(f"{n} masses, where the given file has none")
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome(sec, layer, other)


def tasks(tier):
    big = tier == "thorough"
    T = [("leaf", i, 2 if big else 1) for i in range(len(LEAVES))]
    T += [("pair", i) for i in range(len(LEAVES))]
    T += [("hist", k, 4 if big else 3) for k in range(len(ENVS))]
    T += [("masses",), ("files",), ("clutter",), ("sections",)]
    if big:
        T += [("triple", i) for i in range(12)]
    return T


def run_task(task, ctx):
    clienv.fresh()
    if task[0] == "leaf":
        leaf = LEAVES[task[1]]
        us = [ABSENT, None] + [value(leaf, 0, k) for k in range(task[2])] + falsy(leaf)
        hs = [ABSENT, None] + [value(leaf, 1, k) for k in range(task[2])] + falsy(leaf)[: 1 if task[2] < 2 else 9]
        for u, h in product(us, hs):
            layers(ctx, [(leaf, u, h)])
        ctx.sample({"leaf": leaf, "values": [us, hs]})
    elif task[0] == "pair":
        a = LEAVES[task[1]]
        for b in LEAVES[task[1] + 1 :]:
            for la, lb in product("uhb", repeat=2):  # which layer(s) give it
                layers(ctx, [mk(a, la), mk(b, lb)])
    elif task[0] == "triple":
        sel = LEAVES[::2][:12]
        a = sel[task[1]]
        for b in sel[task[1] + 1 :]:
            for c in sel:
                if c in (a, b):
                    continue
                for l in product("uhb", repeat=3):
                    layers(ctx, [mk(a, l[0]), mk(b, l[1]), mk(c, l[2])])
    elif task[0] == "hist":
        for rest in product(range(len(ENVS)), repeat=task[2] - 1):
            history(ctx, (task[1],) + rest)
    elif task[0] == "masses":
        for nu, nh in product((None, 0, 1, 2, 3), repeat=2):
            masses(ctx, nu, nh)
        for n in (5, 11, 12, 33):
            for o in (None, 1, n - 1, n, n + 1):
                masses(ctx, n, o)
                masses(ctx, o, n)
    elif task[0] == "clutter":
        clutter(ctx)
    elif task[0] == "sections":
        for sec in SECTIONS:
            for layer, other in product(range(2), (None, 0, 1)):
                section(ctx, sec, layer, other)
    else:
        files(ctx)


def mk(leaf, l):
    return (leaf, value(leaf, 0) if l in "ub" else ABSENT, value(leaf, 1) if l in "hb" else ABSENT)


def run_case(case, ctx):
    clienv.fresh()
    if "layers" in case:
        layers(ctx, [(tuple(l), u, h) for l, u, h in case["layers"]])
    elif "history" in case:
        history(ctx, tuple(case["history"]))
    elif "masses" in case:
        masses(ctx, *case["masses"])
    elif "clutter" in case:
        clutter(ctx)
    elif "section" in case:
        section(ctx, tuple(case["section"][0]), *case["section"][1:])
    else:
        files(ctx)
