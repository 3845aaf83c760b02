"""`python -m geec ARGS` in its own process, in the closed world: realcli.py LOGDIR ARGS"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, "/repo"]
log = sys.argv.pop(1)
import geoidenv  # noqa: E402

geoidenv.install()
import pathlib  # noqa: E402

import geec.api  # noqa: E402

geec.api.setup_logdir = lambda: pathlib.Path(log)
import runpy  # noqa: E402

sys.argv[0] = "geec"
runpy.run_module("geec", run_name="__main__")
