#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]   (run in /verif)"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import runner

runner.bootstrap()

import vos          # noqa: E402  before anything of dsari
import importlib    # noqa: E402

MODULES = {"D": "p_daemon", "L": "p_launch", "S": "p_schedule", "C": "p_config", "B": "p_database",
           "R": "p_render", "M": "p_metrics", "I": "p_info", "B03": "p_dbrace"}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--replay":
            replay = a.pop(0)
    c = runner.Check(prop, tier)
    try:
        mod = importlib.import_module(MODULES.get(prop) or MODULES[prop[0]])
    except Exception as e:
        # a program that cannot even be loaded keeps no promise
        tb = traceback.extract_tb(e.__traceback__)
        if not tb or not tb[-1].filename.startswith(os.path.join(os.path.realpath(runner.REPO), "dsari") + os.sep):
            raise
        c.violation("load", "dsari cannot be loaded: %r (%s:%d)" % (e, os.path.basename(tb[-1].filename), tb[-1].lineno))
        return c.finish("model_checking", {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": False})
    if replay:
        return mod.replay(prop, replay)
    return mod.run(c)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
