"""C16: the template written by `geec config` is the packaged one, complete, and usable as it is."""
import os
import shutil
from itertools import product

import numpy as np

import clienv
import refcrs
from c12 import ENVS
from refcrs import WGS84
from refmodel import Hull

ID = "C16"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "9 spellings of the output x 3 previous contents x 6 user configurations x run before or not x stray files nearby or not; every setting read by"
    " a run removed in turn from the rest of the configuration; the template run as it is (484 points) and after each of 12"
    " single edits a user would make; 4 kinds of exception at every executed source line of the package during the command, and 5"
    " unwritable or missing destinations; 1 run of the real command",
    "thorough": "as quick, and every pair of edits",
}
ASSUMPTIONS = ["the packaged template is geec/cfg/config_template.yaml of the working tree"]
setup = clienv.setup
init_worker = clienv.init_worker


def template():
    import geec

    with open(os.path.join(os.path.dirname(os.path.abspath(geec.__file__)), "cfg", "config_template.yaml"), "rb") as f:
        return f.read()


PATHS = {
    None: "config_template.yaml",
    "c": "c.yaml",
    "c.yaml": "c.yaml",
    "c.yml": "c.yaml",
    "c.txt": "c.yaml",
    "sub/c.yaml": "sub/c.yaml",
    "~/c": "~/c.yaml",
    "../work/c.yaml": "c.yaml",
    "ABS/c": "ABS/c.yaml",
}
OLD = "old: [1, 2]\n" * 900


def save(ctx, spec, prev, env, twice, clutter=False, real=False):
    ctx.at({"save": [spec, prev, env, twice, clutter]})
    home, work = clienv.fresh()
    ab = os.path.join(clienv.ROOT, "abs16")
    shutil.rmtree(ab, ignore_errors=True)
    os.makedirs(ab)
    os.makedirs("sub")
    h = ENVS[env][1]
    clienv.home_config(None if h is None else (clienv.yaml(h) if h else ""))
    target = os.path.abspath(PATHS[spec].replace("ABS", ab).replace("~", home))
    if prev is not None:
        clienv.write(target, prev)
    clienv.write("bystander.yaml", "precious: 1\n")
    if clutter:
        for n in ("config_template.yaml", "config_default.yaml", "template.yaml"):
            for where in (os.path.join(home, ".config", "geec"), os.path.join(home, ".config"), home, ab, os.path.join(work, "sub"), os.path.join(work, "cfg"), os.path.join(work, "geec", "cfg")):
                clienv.write(os.path.join(where, n), "stray: 1\n")
    before = clienv.tree(work, home, ab)
    args = ["config"] + ([] if spec is None else ["--output", spec.replace("ABS", ab)])
    for _ in range(2 if twice else 1):
        if real:
            import c14

            rc, exc, out = c14.realcli(args)
        else:
            rc, exc, out = clienv.cli(args)
        if rc != 0:
            ctx.fail(f"geec {' '.join(args)} failed: {exc!r} {out[-300:]}")
    now = clienv.tree(work, home, ab)
    if target not in now:
        ctx.fail(f"output {spec}: no file {target}")
    if now[target] != template():
        ctx.fail(f"output {spec} over {len(prev or '')} bytes: not the packaged template")
    before.pop(target, None)
    now.pop(target)
    if now != before:
        ch = [p for p in set(now) | set(before) if now.get(p) != before.get(p)]
        ctx.fail(f"output {spec}: also changed {ch}")
    os.remove(target)
    ctx.states += 1
    ctx.transitions += 2 if twice else 1
    ctx.outcome(spec, prev is None, env)


WRITING = {}  # (previous content, output given) -> line events at which the file is being written


def failing(ctx, case):
    """the command fails: at a line of the package, or because the destination cannot be written"""
    import sys

    from c15 import KINDS, Tracer

    if case[0] not in ("dest", "count") and case[2:] not in WRITING:
        failing(ctx, ("count", 0) + case[2:])
    ctx.at({"failing": list(case)})
    home, work = clienv.fresh()
    how, n, prev, spec = case
    target = os.path.join(work, "c.yaml" if spec else "config_template.yaml")
    if prev is not None:
        clienv.write(target, prev)
    clienv.write("bystander.yaml", "precious: 1\n")
    args = ["config"] + (["--output", "c"] if spec else [])
    if how == "dest":
        if os.path.exists(target):
            os.remove(target)
        if n == 0:  # the destination is a directory
            os.makedirs(target)
        elif n == 1:  # its folder is a file
            args = ["config", "--output", "bystander.yaml/c"]
            target = None
        elif n == 2:  # its folder does not exist (it may be created)
            args = ["config", "--output", "no/such/c"]
            target = os.path.join(work, "no/such/c.yaml")
        elif n == 3:  # a dangling link into a missing folder
            os.symlink("no/c.yaml", target)
            target = os.path.join(work, "no/c.yaml")
        elif n == 4:  # a second output
            args = ["config", "c", "d"]
    before = clienv.tree(work, home)
    t = Tracer(n if how != "dest" else -1, KINDS.get(how, Exception), target if how == "count" else None)
    sys.settrace(t)
    try:
        rc, exc, out = clienv.cli(args)
    finally:
        sys.settrace(None)
    now = clienv.tree(work, home)
    msg = f"geec {' '.join(args)} disturbed ({how} {n} at {t.where})"
    old, new = before.pop(target, None), now.pop(target, None)
    ch = [p for p in before if now.get(p) != before.get(p)]
    if ch:
        ctx.fail(f"{msg}: also changed {ch}")
    if how == "count":
        WRITING[prev, spec] = t.writing
    if rc != 0 and how != "dest" and n in WRITING[prev, spec]:
        r = "while writing"
    elif new == old:
        if rc == 0 and how != "count":
            ctx.fail(f"{msg}: reported as success, but nothing was written")
        r = "untouched"
    elif new != template():
        ctx.fail(f"{msg}: exit code {rc}, left an incomplete template ({len(new or b'')} bytes)")
    else:
        r = "complete"
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += t.k
    ctx.count(r)
    ctx.outcome(how, t.where, r, rc == 0)
    return t.k


def faults(ctx):
    for prev, spec in product((None, OLD), (True, False)):
        n = failing(ctx, ("count", 0, prev, spec))
        for kind in ("error", "any", "interrupt", "os"):
            for k in range(1, n + 1):
                failing(ctx, (kind, k, prev, spec))
    for n in range(5):
        failing(ctx, ("dest", n, None, True))


# what a run reads
K = ("ref", "name", "semimajor_axis", "semiminor_axis", "longitude_origin", "latitude_origin", "altitude_origin")
KEYS = (
    [("masses", 0, k) for k in ("points", "file_path", "density", "gravity_constant")]
    + [("masses", 0, "crs", k) for k in K + ("vdatum",)]
    + [("observers", k) for k in ("points", "file_path")]
    + [("observers", "grid", g) for g in ("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep")]
    + [("observers", "crs", k) for k in K]
)


def parsed():
    import yaml

    return yaml.safe_load(template().decode())


def complete(ctx):
    """every setting of a run is in the template, so that no default shines through"""
    ctx.at({"complete": True})
    d = parsed()
    for leaf in KEYS:
        cur = d
        try:
            for k in leaf:
                cur = cur[k]
        except Exception:
            ctx.fail(f"{'.'.join(map(str, leaf))} is missing from the template")
        ctx.transitions += 1
    # and loading it gives these values, whatever the user's own configuration is
    import geec.config

    clienv.fresh()
    rc, exc, out = clienv.cli(["config", "--output", "t.yaml"])
    for u, h in ENVS:
        clienv.home_config(None if h is None else (clienv.yaml(h) if h else ""))
        cfg = geec.config.setup("t.yaml")
        for leaf in KEYS:
            cur, v = d, cfg
            for k in leaf:
                cur, v = cur[k], v[k]
            if v.get() != cur:
                ctx.fail(f"{leaf} of the template is read as {v.get()!r}, expected {cur!r}")
            ctx.transitions += 1
    ctx.states += 1
    ctx.traces += 1


EDITS = {
    "observers points": lambda d: d["observers"].update(points=[[0.1, 0.2, 3e4], [2, -1, 10.0]]),
    "observers file": lambda d: d["observers"].update(file_path="o.csv"),
    "smaller grid": lambda d: d["observers"]["grid"].update(xstart_xend_xstep=[-1, 1, 0.5], ystart_yend_ystep=[0, 1, 1]),
    "density": lambda d: d["masses"][0].update(density=-2500.5),
    "constant": lambda d: d["masses"][0].update(gravity_constant=1e-10),
    "airy": lambda d: d["masses"][0]["crs"].update(name="airy"),
    "egm96": lambda d: d["masses"][0]["crs"].update(vdatum="egm96"),
    "egm2008": lambda d: d["masses"][0]["crs"].update(vdatum="egm2008"),
    "cart": lambda d: (d["masses"][0]["crs"].update(ref="cart"), d["observers"]["crs"].update(ref="cart")),
    "enu": lambda d: d["masses"][0]["crs"].update(ref="enu", longitude_origin=0.5, latitude_origin=0.25, altitude_origin=-10),
    "obs airy": lambda d: d["observers"]["crs"].update(name="airy"),
    "file": lambda d: d["masses"][0].update(points=None, file_path="b.csv"),
}
BCSV = [(-0.25, -0.5, 0.0), (0.5, -0.5, 10.0), (0.5, 0.75, 0.0), (0.1, 0.1, -900.0)]
OCSV = [(1.5, 0.5, 100.0), (-1.0, -0.7, 2500.5)]


def usable(ctx, edits):
    """the template, as it is or after the user's edits, runs, and gives the field it describes"""
    import csv

    from scenario import undulation

    ctx.at({"usable": list(edits)})
    clienv.fresh()
    rc, exc, out = clienv.cli(["config", "--output", "mine.yaml"])
    ctx.require(rc == 0, f"geec config failed: {exc!r}")
    clienv.write("b.csv", "".join("%r,%r,%r\n" % p for p in BCSV))
    clienv.write("o.csv", "".join("%r,%r,%r\n" % p for p in OCSV))
    import yaml

    d = yaml.safe_load(open("mine.yaml"))
    if edits:
        for e in edits:
            EDITS[e](d)
        small = any(e in ("observers points", "observers file", "smaller grid") for e in edits)
        if not small:
            EDITS["smaller grid"](d)
        clienv.write("mine.yaml", clienv.yaml(d))
    rc, exc, out = clienv.cli(["run", "--config", "mine.yaml", "out"])
    if rc != 0:
        ctx.fail(f"the template with {edits or 'no edit'} does not run: {exc!r} {out[-300:]}")
    rows = np.array([[float(v) for v in r] for r in list(csv.reader(open("out.csv")))[2:]])
    o = d["observers"]
    if o["points"]:
        P = np.array(o["points"], float)
    elif o["file_path"]:
        P = np.array(OCSV)
    else:
        ax = [[s + k * st for k in range(int(np.ceil((e - s) / st)))] for s, e, st in (o["grid"][g] for g in ("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep"))]
        P = np.array([(x, y, z) for x in ax[0] for y in ax[1] for z in ax[2]], float)
    AB = {None: WGS84, "airy": refcrs.AIRY}
    oc, m = o["crs"], d["masses"][0]
    mc = m["crs"]
    B = np.array(m["points"] or BCSV, float)
    if mc["ref"] == "ellps":
        B[:, 2] += [undulation(mc["vdatum"], x, y) for x, y, _ in B]
    dm = {"cart": ("cart",), "ellps": ("ellps",) + AB[mc["name"]], "enu": ("enu",) + AB[mc["name"]] + (mc["longitude_origin"], mc["latitude_origin"], mc["altitude_origin"])}[mc["ref"]]
    do = ("cart",) if oc["ref"] == "cart" else ("ellps",) + AB[oc["name"]]
    H = Hull(refcrs.physical(B, dm).astype(float))
    O = refcrs.physical(P, do)
    f = m["density"] * m["gravity_constant"]
    G = (H.field(O)[0] * f).astype(float)
    D = np.sqrt(((O - H.P[0]) ** 2).sum(1)).astype(float)
    # a plate of 100 km x 1 m: its upper and lower faces almost cancel
    tol = 1e-6 * np.sqrt((G * G).sum(1)).max() + 2e-14 * (D + 1e5) * 1e5 * abs(f)
    if rows.shape != (len(P), 12):
        ctx.fail(f"template with {edits}: results have shape {rows.shape}, expected {(len(P), 12)}")
    e = np.abs(rows[:, 3:6] - G).max(axis=1)
    if not np.all(e <= tol):
        i = int(np.argmax(e / tol))
        ctx.fail(f"template with {edits}: gravity at {P[i].tolist()} is {rows[i, 3:6].tolist()}, expected {G[i].tolist()} (tolerance {tol[i]:.3g})")
    ctx.err("G", float((e / tol).max()))
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += 2
    ctx.outcome(edits)


EXCL = ({"cart", "enu"}, {"cart", "airy"}, {"cart", "egm96"}, {"cart", "egm2008"}, {"cart", "obs airy"}, {"egm96", "egm2008"}, {"observers points", "observers file"})


def tasks(tier):
    T = [("usable", ())] + [("save", p) for p in PATHS] + [("complete",), ("real",), ("faults",)]
    T += [("usable", (e,)) for e in EDITS]
    if tier == "thorough":
        for a, b in product(EDITS, repeat=2):
            if a < b and not any({a, b} == x for x in EXCL):
                T.append(("usable", (a, b)))
    return T


def run_task(task, ctx):
    if task[0] == "save":
        for prev, env, twice, clutter in product((None, "", OLD), range(len(ENVS)), (False, True), (False, True)):
            save(ctx, task[1], prev, env, twice, clutter)
        ctx.sample({"output": task[1]})
    elif task[0] == "usable":
        usable(ctx, task[1])
    elif task[0] == "faults":
        faults(ctx)
    elif task[0] == "real":
        save(ctx, "c.txt", OLD, 2, False, True, True)
    else:
        complete(ctx)


def run_case(case, ctx):
    if "save" in case:
        save(ctx, *case["save"])
    elif "failing" in case:
        failing(ctx, tuple(case["failing"]))
    elif "usable" in case:
        usable(ctx, tuple(case["usable"]))
    else:
        complete(ctx)
