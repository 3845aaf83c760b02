"""A closed world for the configuration and command-line checks: every worker process has
its own scratch directory with a home, a working directory and nothing else; the log
directory of the package is redirected into it."""
import atexit
import os
import shutil
import tempfile

import crsenv

ROOT = None
_parent = None


def setup():
    """parent: one scratch directory, removed at the end"""
    global _parent
    _parent = tempfile.mkdtemp(prefix="geecmc_cli_")
    d, pid = _parent, os.getpid()

    def clean():
        if os.getpid() == pid:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)

    atexit.register(clean)
    import geoidenv

    for g in ("egm96-5.pgm", "egm2008-2_5.pgm"):
        geoidenv.grid_path(g)


def init_worker():
    global ROOT
    if _parent is None:
        setup()
    ROOT = tempfile.mkdtemp(prefix="w", dir=_parent)
    crsenv.init_worker()
    for v in ("GEECDIR", "XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "COLUMNS"):
        os.environ.pop(v, None)
    os.environ["XDG_CONFIG_DIRS"] = os.path.join(ROOT, "xdg")
    fresh()
    import loguru
    import geec.api

    log = os.path.join(ROOT, "log")
    os.makedirs(log)

    def setup_logdir():
        import pathlib

        return pathlib.Path(log)

    geec.api.setup_logdir = setup_logdir
    geec.api.setup_logger = lambda: loguru.logger.remove()
    loguru.logger.remove()


def fresh():
    """an empty home and an empty working directory; returns (home, work)"""
    os.chdir(ROOT)
    home, work = os.path.join(ROOT, "home"), os.path.join(ROOT, "work")
    for d in (home, work):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    os.environ["HOME"] = home
    os.chdir(work)
    return home, work


def home_config(text):
    """(re)write or remove ~/.config/geec/config.yaml"""
    d = os.path.join(os.environ["HOME"], ".config", "geec")
    p = os.path.join(d, "config.yaml")
    if text is None:
        if os.path.exists(p):
            os.remove(p)
        return
    os.makedirs(d, exist_ok=True)
    with open(p, "w") as f:
        f.write(text)


def write(path, text):
    os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    return path


def tree(*dirs):
    """{path: bytes} of every file below"""
    out = {}
    for d in dirs:
        for r, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(r, f)
                if not os.path.exists(p):
                    continue
                with open(p, "rb") as h:
                    out[p] = h.read()
    return out


def yaml(d):
    import yaml as y

    return y.safe_dump(d, default_flow_style=None, sort_keys=False)


def cli(args):
    """run the command line in this process; (exit code, exception)"""
    import warnings
    from typer.testing import CliRunner
    import geec.cli

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = CliRunner().invoke(geec.cli.app, args)
    return r.exit_code, r.exception, r.output
