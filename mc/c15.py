"""C15: a run either writes the complete result or fails, says so and leaves files alone."""
import copy
import os
import resource
import sys

import numpy as np

import clienv
from core import Ctx, Violation
from scenario import Scenario, judge

ID = "C15"
LEVEL = "fault_enumeration"
RULE = (
    "states are the distinct points at which a run was made to fail (source line executions of the package, bytes of"
    " the result file, invalid settings); an outcome is nontrivial when the fault reached the run"
)
BOUNDS = {
    "quick": "an exception injected at every execution of every source line of the package during two small runs up to 3 executions of a"
    " line (then at powers of two), a keyboard interrupt at the first execution of each; every 8th byte of the result file as the point where"
    " the disk is full; 79 invalid settings x position x previous result or not x gradient; 9 spellings of the output path x 3 previous"
    " contents; unwritable outputs",
    "thorough": "every execution of every line, both exceptions, three runs; every byte of the result file",
}
ASSUMPTIONS = [
    "faults are synchronous exceptions at source lines of the package, failed reads and writes, and invalid input;"
    " the death of the process during the final write may leave a truncated file (the file is not written atomically)",
]
setup = clienv.setup


def init_worker():
    clienv.init_worker()
    # compile what is compiled lazily before counting lines
    clienv.fresh()
    for k in range(len(RUNS)):
        sc = Scenario(*RUNS[k][:2])
        sc.write()
        clienv.cli(["run", "--config", "cfg.yaml", "--gradient", "warm.csv"])


RUNS = [
    ([("CART", "tet", 0, None, 0, "points"), ("CART", "tet", 1, None, 1, "file")], ("CART", "file", 2), True),
    ([("WGS84", "tet", 0, "egm96", 0, "points")], ("AIRY", "points", 1), False),
    ([("ENUW", "box", 0, None, 0, "points"), ("ECEF", "tet", 1, None, 1, "points")], ("ENUA", "grid", None), True),
]
OLD = "x_mes,precious\n" + "1,2,3,4,5,6,7,8,9\n" * 400


class Injected(Exception):
    pass


class AnyError(ValueError, ArithmeticError, LookupError, TypeError, RuntimeError, AssertionError):
    """what a handler of any usual exception would catch"""


KINDS = {"error": Injected, "any": AnyError, "interrupt": KeyboardInterrupt, "memory": MemoryError, "os": OSError}


def is_open(path):
    """is this file open in this process?"""
    for f in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + f) == path:
                return True
        except OSError:
            pass
    return False


class Tracer:
    """raise at the n-th line event of the package (0: only count)"""

    def __init__(self, n=0, exc=Injected, target=None):
        self.n, self.exc, self.k, self.seen = n, exc, 0, {}
        self.where = None
        self.at = []
        self.target, self.opener, self.writing = target, None, set()

    def __call__(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith("/repo/geec/"):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.k += 1
            if self.n == 0:
                key = (frame.f_code.co_filename, frame.f_lineno)
                self.seen[key] = self.seen.get(key, 0) + 1
                self.at.append(self.seen[key])
                if self.target and is_open(self.target):
                    # the output is being written, as long as no other module of the package is at work
                    if self.opener is None:
                        self.opener = key[0]
                    if self.opener == key[0]:
                        self.writing.add(self.k)
                    else:
                        self.target, self.writing = None, set()
            elif self.k == self.n:
                self.where = f"{frame.f_code.co_filename}:{frame.f_lineno}"
                sys.settrace(None)
                raise self.exc("injected fault")
        return self.line


def prepare(k, previous=True):
    clienv.fresh()
    m, o, g = RUNS[k]
    sc = Scenario(m, o)
    sc.write()
    if previous:
        clienv.write("res.csv", OLD)
    args = ["run", "--config", "cfg.yaml"] + (["--gradient"] if g else []) + ["res.csv"]
    return sc, args, g


def complete(sc, text, g):
    c = Ctx()
    c.at({})
    try:
        judge(c, sc, text, bool(g))
    except Violation as v:
        return v.msg
    return None


def aftermath(ctx, sc, g, rc, before, msg, writing=False):
    """after a run which was disturbed (writing: while the result itself was being written)"""
    now = clienv.tree(".")
    for p, b in before.items():
        if p.endswith("res.csv"):
            continue
        if now.get(p) != b:
            ctx.fail(f"{msg}: the input file {p} was changed")
    old = before.get("./res.csv")
    new = now.get("./res.csv")
    if new == old:
        if rc == 0:
            ctx.fail(f"{msg}: reported as success, but no result was written")
        return "untouched"
    if writing and rc != 0:
        return "while writing"
    if new is None:
        ctx.fail(f"{msg}: the previous result was removed")
    bad = complete(sc, new.decode(), g)
    if bad:
        ctx.fail(f"{msg}: exit code {rc}, and the result file was replaced by an incorrect one: {bad}")
    return "complete"


def count(k):
    sc, args, g = prepare(k)
    t = Tracer(target=os.path.realpath("res.csv"))
    sys.settrace(t)
    try:
        rc, exc, out = clienv.cli(args)
    finally:
        sys.settrace(None)
    WRITING[k] = t.writing
    return t.at, rc, exc


WRITING = {}


def inject(ctx, k, n, kind):
    ctx.at({"inject": [k, n, kind]})
    if k not in WRITING:
        count(k)
    sc, args, g = prepare(k)
    before = clienv.tree(".")
    t = Tracer(n, KINDS[kind])
    sys.settrace(t)
    try:
        rc, exc, out = clienv.cli(args)
    finally:
        sys.settrace(None)
    r = aftermath(ctx, sc, g, rc, before, f"fault ({kind}) at {t.where}, line event {n}", n in WRITING[k])
    ctx.states += 1
    ctx.transitions += t.k
    ctx.traces += 1
    ctx.count(r)
    ctx.outcome(t.where, kind, r, rc == 0)


def diskfull(ctx, k, size, prev):
    ctx.at({"diskfull": [k, size, prev]})
    sc, args, g = prepare(k, prev)
    before = clienv.tree(".")
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
    try:
        rc, exc, out = clienv.cli(args)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    now = clienv.tree(".")
    if rc == 0:
        new = now.get("./res.csv", b"").decode()
        bad = complete(sc, new, g)
        if bad:
            ctx.fail(f"the disk was full after {size} bytes, but the run reported success: {bad}")
    for p, b in before.items():
        if not p.endswith("res.csv") and now.get(p) != b:
            ctx.fail(f"disk full after {size} bytes: the input file {p} was changed")
    ctx.states += 1
    ctx.transitions += 1
    ctx.count("diskfull_fail" if rc else "diskfull_fit")
    ctx.outcome("full", k, size, rc == 0)


NAN = float("nan")
FLAT = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 1.0, 0.0]]
M_BAD = {
    "density text": ("density", "heavy"),
    "density null": ("density", None),
    "density list": ("density", [1.0]),
    "constant text": ("gravity_constant", "big"),
    "constant null": ("gravity_constant", None),
    "flat": ("points", FLAT),
    "three points": ("points", FLAT[:3]),
    "one point": ("points", FLAT[:1]),
    "not a number": ("points", FLAT + [[0.0, NAN, 1.0]]),
    "infinite": ("points", FLAT + [[0.0, 0.0, float("inf")]]),
    "ragged": ("points", FLAT + [[0.0, 1.0]]),
    "two columns": ("points", [p[:2] for p in FLAT] + [[5.0, 5.0]]),
    "words": ("points", [["a", "b", "c"]] * 5),
    "missing file": ("file_path", "nothere.csv"),
    "no source": ("points", None),
    "bad ref": (("crs", "ref"), "mercator"),
    "enu without origin": (("crs", "ref"), "enu"),
    "bad ellipsoid": (("crs", "name"), "atlantis"),
    "bad datum": (("crs", "vdatum"), "msl"),
    "text axis": (("crs", "semimajor_axis"), "large"),
}
O_BAD = {
    "obs missing file": ("file_path", "nothere.csv"),
    "obs words": ("points", [["a", "b", "c"]]),
    "obs ragged": ("points", [[1.0, 2.0, 3.0], [1.0, 2.0]]),
    "obs two columns": ("points", [[1.0, 2.0], [3.0, 4.0]]),
    "obs one column": ("points", [[1.0], [3.0]]),
    "obs one number": ("points", [5.0]),
    "obs one column cart": ("points", [[1.0], [3.0]]),
    "obs two columns cart": ("points", [[1.0, 2.0], [3.0, 4.0]]),
    "obs four columns cart": ("points", [[1.0, 2.0, 3.0, 4.0]]),
    "obs bad ref": (("crs", "ref"), "mercator"),
    "obs enu without origin": (("crs", "ref"), "enu"),
    "obs bad ellipsoid": (("crs", "name"), "atlantis"),
    "obs no source": ("none", None),
    "obs zero step": ("grid", {"xstart_xend_xstep": [0, 1, 0]}),
    "obs short grid": ("grid", {"ystart_yend_ystep": [0, 1]}),
    "obs long grid": ("grid", {"zstart_zend_zstep": [0, 1, 1, 1]}),
    "obs word in grid": ("grid", {"xstart_xend_xstep": ["a", 1, 1]}),
    "obs null in grid": ("grid", {"ystart_yend_ystep": [0, None, 1]}),
    "obs number grid": ("grid", {"zstart_zend_zstep": 3}),
    "obs points a word": ("points", "everywhere"),
    "obs points a number": ("points", 3.5),
    "obs nested points": ("points", [[[1.0, 2.0, 3.0]]]),
}
# contents of files of points that are none
F_BAD = {
    "words": "a,b,c\nd,e,f\n",
    "a header": "lon,lat,alt\n11.0,47.0,3.0\n11.1,47.0,3.0\n11.0,47.1,3.0\n11.0,47.0,900.0\n",
    "nothing": "",
    "blank lines": "\n\n\n",
    "one column": "11.0\n12.0\n13.0\n14.0\n",
    "two columns": "11.0,47.0\n11.5,47.0\n11.0,47.5\n11.2,47.2\n",
    "four columns": "11.0,47.0,0,1\n11.5,47.0,0,1\n11.0,47.5,0,1\n11.2,47.2,500,1\n",
    "long row": "11.0,47.0,0.0\n11.5,47.0,0.0\n11.0,47.5,0.0,9.0\n11.2,47.2,500.0\n",
    "semicolons": "11.0;47.0;0.0\n11.5;47.0;0.0\n11.0;47.5;0.0\n11.2;47.2;500.0\n",
}


def invalid_conf(name, pos):
    sc = Scenario([("WGS84", "tet", 0, None, 0, "points"), ("WGS84", "box", 1, None, 1, "points")], ("WGS84", "points", 2))
    c = copy.deepcopy(sc.config)
    if name in M_BAD:
        key, val = M_BAD[name]
        m = c["masses"][pos]
        if isinstance(key, tuple):
            m["crs"][key[1]] = val
            if name == "text axis":
                m["crs"]["name"] = None
                m["crs"]["semiminor_axis"] = 6.3e6
        else:
            m[key] = val
        if name == "missing file":
            m["points"] = None
        if name == "no source":
            m["file_path"] = None
    else:
        key, val = O_BAD[name]
        o = c["observers"]
        if isinstance(key, tuple):
            o["crs"][key[1]] = val
        elif key == "none":
            o.update(points=[], file_path=None, grid=None)
        else:
            if key == "grid":
                axes = ("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep")
                val = dict({a: [11, 12, 1] for a in axes}, **val)
                o["points"] = []
            o[key] = val
            if name.endswith("cart"):
                o["crs"]["ref"] = "cart"
            if key == "file_path":
                o["points"] = []
    return c


TEXTS = {
    "unparsable": "masses: [\n - x: {",
    "tab": "masses:\n\t- a: 1\n",
    "masses a number": "masses: 3\n",
    "masses null": "masses:\n",
    "observers a list": "observers: [1, 2]\n",
    "only a number": "42\n",
    "masses without hyphen": "masses:\n  density: 3.0\n",
    "masses a word": "masses: heavy\n",
    "masses a list of numbers": "masses: [1, 2]\n",
    "masses a list of lists": "masses: [[1, 2], [3, 4]]\n",
    "observers a number": "observers: 5\n",
    "observers a word": "observers: here\n",
    "crs a word": "masses:\n  - crs: wgs84\n",
}


def must_fail(ctx, case, args, prev):
    ctx.at(case)
    if prev:
        clienv.write("res.csv", OLD)
    before = clienv.tree(".")
    with np.errstate(all="ignore"):
        rc, exc, out = clienv.cli(args)
    now = clienv.tree(".")
    if rc == 0:
        ctx.fail(f"{case}: accepted (exit code 0)")
    if now != before:
        ch = [p for p in set(now) | set(before) if now.get(p) != before.get(p)]
        ctx.fail(f"{case}: failed, but changed {ch}")
    ctx.states += 1
    ctx.transitions += 1
    ctx.traces += 1
    ctx.count("refused")
    ctx.outcome(sorted(case.items(), key=str), type(exc).__name__)


def invalid(ctx, name, pos, prev, grad):
    clienv.fresh()
    case = {"invalid": name, "pos": pos, "prev": prev, "grad": grad}
    if name in TEXTS:
        clienv.write("cfg.yaml", TEXTS[name])
    elif name == "no file":
        pass
    elif isinstance(name, str) and name.startswith(("body file: ", "observer file: ")):
        who, kind = name.split(": ")
        sc = Scenario([("WGS84", "tet", 0, None, 0, "points"), ("WGS84", "box", 1, None, 1, "points")], ("WGS84", "points", 2))
        c = copy.deepcopy(sc.config)
        d = c["masses"][pos] if who == "body file" else c["observers"]
        d["points"], d["file_path"] = None, "bad.csv"
        if kind == "directory":
            os.makedirs("bad.csv")
        else:
            clienv.write("bad.csv", F_BAD[kind])
        clienv.write("cfg.yaml", clienv.yaml(c))
    elif name in ("no output", "unknown option", "two outputs"):
        Scenario(*RUNS[0][:2]).write()
    else:
        clienv.write("cfg.yaml", clienv.yaml(invalid_conf(name, pos)))
    args = ["run", "--config", "cfg.yaml"] + (["--gradient"] if grad else [])
    if name != "no output":
        args.append("res.csv")
    if name == "unknown option":
        args.append("--fast")
    if name == "two outputs":
        args.append("res2.csv")
    must_fail(ctx, case, args, prev)


def unwritable(ctx, how):
    clienv.fresh()
    sc, args, g = prepare(0, False)
    if how == "directory":
        os.makedirs("res.csv")
    elif how == "below a file":
        clienv.write("file", "precious")
        args[-1] = "file/res.csv"
    elif how == "below a file 2":
        clienv.write("file", "precious")
        args[-1] = "file/a/b/res.csv"
    elif how == "name too long":
        args[-1] = "x" * 300 + ".csv"
    must_fail(ctx, {"unwritable": how}, args, False)


PATHS = {
    "o.csv": "o.csv",
    "o": "o.csv",
    "o.txt": "o.csv",
    "d/e/o.csv": "d/e/o.csv",
    "d/f/g/h/o": "d/f/g/h/o.csv",
    "~/o": "~/o.csv",
    "~/new/o.csv": "~/new/o.csv",
    "./x/../o.csv": "o.csv",
    "ABS/o.csv": "ABS/o.csv",
}


def paths(ctx, spec, prev):
    """the result is at the path given, with extension .csv, whole, and nothing else changes"""
    ctx.at({"paths": spec, "prev": prev})
    home, work = clienv.fresh()
    ab = os.path.join(clienv.ROOT, "abs")
    os.makedirs(ab, exist_ok=True)
    sc = Scenario(*RUNS[0][:2])
    sc.write()
    target = PATHS[spec].replace("ABS", ab).replace("~", home)
    bystander = clienv.write("bystander.csv", "precious\n")
    if prev is not None:
        clienv.write(target, prev)
    before = clienv.tree(work, home, ab)
    rc, exc, out = clienv.cli(["run", "--config", "cfg.yaml", "--gradient", spec.replace("ABS", ab)])
    if rc != 0:
        ctx.fail(f"output {spec}: failed: {exc!r}")
    now = clienv.tree(work, home, ab)
    t = os.path.abspath(target)
    if t not in now:
        ctx.fail(f"output {spec}: no file {target}")
    bad = complete(sc, now[t].decode(), True)
    if bad:
        ctx.fail(f"output {spec} over {len(prev or '')} bytes: {bad}")
    before.pop(t, None)
    now.pop(t)
    if now != before:
        ch = [p for p in set(now) | set(before) if now.get(p) != before.get(p)]
        ctx.fail(f"output {spec}: also changed {ch}")
    os.remove(t)
    ctx.states += 1
    ctx.transitions += 1
    ctx.traces += 1
    ctx.count("written")
    ctx.outcome(spec, prev is None)


CLI_BAD = ("no output", "unknown option", "two outputs")


def tasks(tier):
    big = tier == "thorough"
    T = []
    nb = 64 if big else 16
    for k in range(3 if big else 2):
        for b in range(nb):
            T.append(("lines", k, b, nb, big))
    for k in range(2):
        for b in range(8):
            T.append(("full", k, b, 1 if big else 8))
    for n in list(M_BAD) + list(O_BAD) + list(TEXTS) + ["no file"] + list(CLI_BAD) + [
        f"{w} file: {k}" for w in ("body", "observer") for k in list(F_BAD) + ["directory"]
    ]:
        T.append(("invalid", n))
    T.append(("unwritable",))
    T += [("paths", p) for p in PATHS]
    return T


def run_task(task, ctx):
    if task[0] == "lines":
        _, k, b, nb, big = task
        at, rc, exc = count(k)
        if rc != 0:
            ctx.at({"inject": [k, 10**9, "error"]})
            ctx.fail(f"the undisturbed run failed: {exc!r}")
        for n, occ in enumerate(at, 1):
            if n % nb != b:
                continue
            if big or occ <= 3 or occ & (occ - 1) == 0:
                inject(ctx, k, n, "error")
            if big or occ == 1:
                inject(ctx, k, n, "interrupt")
            if occ == 1:
                inject(ctx, k, n, "memory")
                inject(ctx, k, n, "os")
            if occ <= 2:
                inject(ctx, k, n, "any")
        ctx.sample({"run": k, "line executions": len(at)})
    elif task[0] == "full":
        _, k, b, stp = task
        sc, args, g = prepare(k)
        clienv.cli(args)
        size = os.path.getsize("res.csv")
        for i, s in enumerate(range(0, size + 2, stp)):
            if i % 8 == b:
                diskfull(ctx, k, s, bool(i % 2))
    elif task[0] == "invalid":
        for pos in (0, 1) if task[1] in M_BAD or task[1].startswith("body file") else (0,):
            for prev in (False, True):
                for grad in (False, True):
                    invalid(ctx, task[1], pos, prev, grad)
    elif task[0] == "unwritable":
        for h in ("directory", "below a file", "below a file 2", "name too long"):
            unwritable(ctx, h)
    else:
        for prev in (None, "", OLD, "short\n"):
            paths(ctx, task[1], prev)


def run_case(case, ctx):
    if "inject" in case:
        if case["inject"][1] >= 10**9:
            run_task(("lines", case["inject"][0], -1, 10**9, False), ctx)
        else:
            inject(ctx, *case["inject"])
    elif "diskfull" in case:
        diskfull(ctx, *case["diskfull"])
    elif "invalid" in case:
        invalid(ctx, case["invalid"], case["pos"], case["prev"], case["grad"])
    elif "unwritable" in case:
        unwritable(ctx, case["unwritable"])
    else:
        paths(ctx, case["paths"], case["prev"])
