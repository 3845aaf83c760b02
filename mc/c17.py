"""C17: the log of a run tells which settings it used; earlier logs are never touched."""
import contextlib
import os
import pathlib
import re
import shutil
import time
from itertools import product

import clienv
from c12 import ABSENT, C, K, LEAVES, M, config, default, hash_, put, resolve, value
from scenario import Scenario

ID = "C17"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every setting (31) x {absent, value, empty or zero, null}^2 in the given file and in the user's file, over the packaged"
    " default; every pair of settings in the two files; 1 to 6 masses in each of the two files, each with its own values; every history of 3 (and 4 of 5)"
    " commands over 9 (runs that succeed, fail and are refused, template, version, log folder, help) in an empty log folder or"
    " one with 64 files, some years old; runs of 3 x 3 configurations; 3 runs of the real command",
    "thorough": "as quick, two values per setting, histories of 4 (and 5 of 5)",
}
ASSUMPTIONS = [
    "the log is read as lines `name: value`; a value may be followed by its unit",
    "the log folder of the package is moved to a scratch folder",
]
setup = clienv.setup
_real = {}


def init_worker():
    import geec.api

    _real.update(setup_logdir=geec.api.setup_logdir, setup_logger=geec.api.setup_logger)
    clienv.init_worker()


# --- reading a log ---------------------------------------------------------------------
GRID = ("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep")
NAMES = C + ("ref",) + K[1:] + ("vdatum",) + GRID


def settings(text):
    """{name: values in order of the log}"""
    out = {n: [] for n in NAMES}
    for line in text.splitlines():
        m = re.search(r"(?:^|- )\s*(%s)\s*: (.*?)\s*$" % "|".join(NAMES), line)
        if m:
            out[m.group(1)].append(m.group(2))
    return out


def expected(layers):
    n = next(len(d["masses"]) for d in layers if d and d.get("masses") is not None)
    out = {k: [] for k in NAMES}
    for i in range(n):
        for k in C:
            out[k].append(resolve(layers, ("masses", i, k)))
        for k in K + ("vdatum",):
            out[k].append(resolve(layers, ("masses", i, "crs", k)))
    for k in ("points", "file_path"):
        out[k].append(resolve(layers, ("observers", k)))
    for k in GRID:
        out[k].append(resolve(layers, ("observers", "grid", k)))
    for k in K:
        out[k].append(resolve(layers, ("observers", "crs", k)))
    # a run has no use for the vertical datum of the observers: it may be shown or not
    out["extra"] = resolve(layers, ("observers", "crs", "vdatum"))
    return out


def compare(ctx, text, want):
    got = settings(text)
    for k in NAMES:
        ctx.transitions += 1
        g, w = got[k], [str(v) for v in want[k]]
        if k == "vdatum" and len(g) == len(w) + 1:
            w.append(str(want["extra"]))
        if len(g) != len(w) or not all(a == b.strip() or a.startswith(b + " ") for a, b in zip(g, w)):
            ctx.fail(f"{k}: the log shows {g}, the values used are {w}")


@contextlib.contextmanager
def captured():
    from loguru import logger

    lines = []
    i = logger.add(lambda m: lines.append(str(m)), level="INFO", format="{message}")
    try:
        yield lines
    finally:
        logger.remove(i)


def flat(cfg):
    """everything in a configuration, as text"""
    return repr([cfg["masses"].get(), cfg["observers"].get()])


def shown(ctx, cfg, want):
    import geec.config

    before = flat(cfg)
    for _ in range(2):
        with captured() as lines:
            geec.config.show(cfg)
        compare(ctx, "".join(lines), want)
    if flat(cfg) != before:
        ctx.fail("showing the configuration changed it")
    ctx.states += 1
    ctx.traces += 1


def layers(ctx, spec):
    user, home = {}, {}
    for leaf, u, h in spec:
        if u != ABSENT:
            put(user, leaf, u)
        if h != ABSENT:
            put(home, leaf, h)
    ctx.at({"layers": [[list(l), u, h] for l, u, h in spec]})
    want = expected([user, home, default()])
    cfg = config(user or None, home or None)
    shown(ctx, cfg, want)
    ctx.outcome([[str(v) for v in w] for k, w in want.items() if k != "extra"])


def masses(ctx, n, layer, shift):
    """several masses, no two settings of which are the same"""
    ctx.at({"masses": [n, layer, shift]})
    docs = [{}, {}]
    for i in range(n):
        for leaf in LEAVES:
            if leaf[:2] == M:
                put(docs[layer], ("masses", i) + leaf[2:], value(leaf, layer, i) if (hash_(leaf) + i) % 4 != shift else None)
    for leaf in LEAVES:
        if leaf[0] == "observers" and (hash_(leaf) + shift) % 3:
            put(docs[1 - layer], leaf, value(leaf, 1 - layer))
    shown(ctx, config(*docs), expected(docs + [default()]))


# --- log files -------------------------------------------------------------------------
BOX = ("CART", "box", 0, None, 0, "points")
RUNS = [
    Scenario([BOX], ("CART", "points", 1)),
    Scenario([("WGS84", "tet", 0, "egm96", 1, "file"), ("ENUA", "box", 0, None, 2, "points")], ("AIRY", "points", 2)),
    Scenario([("CART", "tet", 1, None, 3, "points"), BOX, ("CART", "roof", 2, None, 2, "file")], ("CART", "file", 1)),
]
LETTERS = ("run0", "run1", "run2", "flat", "noconf", "config", "version", "logdir", "help")


def folder():
    """the package's own idea of the log folder, moved to a scratch folder"""
    import geec.api

    pkg = os.path.join(clienv.ROOT, "pkg", "geec")
    shutil.rmtree(os.path.join(clienv.ROOT, "pkg"), ignore_errors=True)
    os.makedirs(pkg)
    geec.api.setup_logger = _real["setup_logger"]
    geec.api.setup_logdir = _real["setup_logdir"]
    geec.api.__file__ = os.path.join(pkg, "api.py")
    try:
        d = str(geec.api.setup_logdir())
    except Exception:
        d = ""
    if not os.path.realpath(d).startswith(os.path.realpath(clienv.ROOT) + os.sep):
        d = os.path.join(clienv.ROOT, "pkg", "log")
        geec.api.setup_logdir = lambda: (os.makedirs(d, exist_ok=True), pathlib.Path(d))[1]
    return d


def restore():
    import geec.api
    from loguru import logger

    logger.remove()
    geec.api.setup_logger = lambda: logger.remove()
    geec.api.setup_logdir = _real["setup_logdir"]


def arguments(letter):
    """(arguments, layers whose settings are used or None)"""
    if letter.startswith("run"):
        sc = RUNS[int(letter[3:])]
        return ["run", "--config", sc.write(letter + ".yaml"), letter], sc.config
    if letter == "flat":
        c = dict(RUNS[0].config, masses=[dict(RUNS[0].config["masses"][0], points=[[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0]])])
        clienv.write("flat.yaml", clienv.yaml(c))
        return ["run", "--config", "flat.yaml", "flat"], c
    return {"noconf": (["run", "--config", "none.yaml", "x"], None), "config": (["config"], None), "version": (["--version"], None),
            "logdir": (["--log"], None), "help": (["--help"], None)}[letter]


def history(ctx, seq, old):
    from loguru import logger

    import geec

    ctx.at({"history": [list(seq), old]})
    clienv.fresh()
    d = folder()
    try:
        os.makedirs(d, exist_ok=True)
        if old:
            for n in ("geec.log", "geec_2020-01-01_00-00-00_000000.log", "notes.txt", "sub/geec_1.log"):
                clienv.write(os.path.join(d, n), "kept\n" * 3)
            for k in range(60):  # many, some of them years old or large
                p = clienv.write(os.path.join(d, f"geec_{2020 + k // 12}-{k % 12 + 1:02}-15_10-00-00_{k:06}.log"), "kept\n" * (1 + 20000 * (k == 7)))
                t = time.time() - 86400 * (0, 3, 40, 2000)[k % 4]
                os.utime(p, (t, t))
        for letter in seq:
            args, conf = arguments(letter)
            before, work = clienv.tree(d), clienv.tree(".")
            rc, exc, out = clienv.cli(args)
            logger.complete()
            after = clienv.tree(d)
            ctx.transitions += 1
            for p in before:
                if after.get(p) != before[p]:
                    ctx.fail(f"{letter}: the earlier log {os.path.basename(p)} was changed or removed")
            new = [p for p in after if p not in before]
            if letter in ("version", "logdir", "help"):
                if rc != 0 or new or clienv.tree(".") != work:
                    ctx.fail(f"geec {' '.join(args)}: exit code {rc}, new files {new}, or files changed")
                flatout = "".join(out.split())
                if letter == "version" and geec.__version__ not in out:
                    ctx.fail(f"--version prints {out!r}")
                if letter == "logdir" and os.path.realpath(d) not in os.path.realpath(flatout.partition(":")[2]):
                    ctx.fail(f"--log prints {out!r}, logs are in {d}")
                continue
            if (rc == 0) != (letter.startswith("run") or letter == "config"):
                ctx.fail(f"geec {' '.join(args)} ended with exit code {rc}: {exc!r}")
            if len(new) != 1:
                ctx.fail(f"{letter}: {len(new)} new log files")
            text = after[new[0]].decode()
            if conf is not None:
                compare(ctx, text, expected([conf, None, default()]))
            elif any(settings(text).values()):
                ctx.fail(f"{letter}: a log of settings, of another run")
    finally:
        restore()
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome(seq)


def real(ctx, k):
    """the real command, in its own process"""
    import subprocess
    import sys

    ctx.at({"real": k})
    clienv.fresh()
    d = os.path.join(clienv.ROOT, "pkg", "log")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n in range(2):
        sc = RUNS[(k + n) % 3]
        before = clienv.tree(d)
        here = os.path.dirname(os.path.abspath(__file__))
        r = subprocess.run([sys.executable, "-B", os.path.join(here, "realcli.py"), d, "run", "--config", sc.write(), "res"], capture_output=True, text=True)
        if r.returncode:
            ctx.fail(f"the run failed: {r.stderr[-400:]}")
        after = clienv.tree(d)
        new = [p for p in after if p not in before]
        if len(new) != 1 or any(after.get(p) != before[p] for p in before):
            ctx.fail(f"new logs {new}, or earlier logs changed")
        compare(ctx, after[new[0]].decode(), expected([sc.config, None, default()]))
    ctx.states += 1
    ctx.traces += 1


FEW = ("run0", "flat", "config", "logdir", "run2")


def tasks(tier):
    big = tier == "thorough"
    T = [("leaf", i, 2 if big else 1) for i in range(len(LEAVES))]
    T += [("pair", i) for i in range(len(LEAVES))]
    T += [("masses", n) for n in range(1, 7)]
    T += [("hist", a, b, 4 if big else 3) for a in LETTERS for b in LETTERS]
    T += [("few", a, b, 5 if big else 4) for a in FEW for b in FEW]
    T += [("real", k) for k in range(3)]
    return T


def run_task(task, ctx):
    from c12 import falsy, mk

    clienv.fresh()
    if task[0] == "leaf":
        leaf = LEAVES[task[1]]
        vals = [[ABSENT, None] + [value(leaf, layer, k) for k in range(task[2])] + falsy(leaf) for layer in (0, 1)]
        for u, h in product(*vals):
            layers(ctx, [(leaf, u, h)])
        ctx.sample({"leaf": leaf, "values": vals})
    elif task[0] == "pair":
        a = LEAVES[task[1]]
        for b in LEAVES[task[1] + 1 :]:
            for la, lb in product("uh", repeat=2):
                layers(ctx, [mk(a, la), mk(b, lb)])
    elif task[0] == "masses":
        for layer, shift in product((0, 1), range(4)):
            masses(ctx, task[1], layer, shift)
    elif task[0] in ("hist", "few"):
        for rest in product(LETTERS if task[0] == "hist" else FEW, repeat=task[3] - 2):
            history(ctx, task[1:3] + rest, (len(rest[0]) + len(task[1])) % 2 == 0)
    else:
        real(ctx, task[1])


def run_case(case, ctx):
    clienv.fresh()
    if "layers" in case:
        layers(ctx, [(tuple(l), u, h) for l, u, h in case["layers"]])
    elif "masses" in case:
        masses(ctx, *case["masses"])
    elif "history" in case:
        history(ctx, tuple(case["history"][0]), case["history"][1])
    else:
        real(ctx, case["real"])
