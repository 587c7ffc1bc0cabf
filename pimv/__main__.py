import argparse
import importlib
import inspect
import json
import os
import subprocess
import sys
import traceback

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    only = None
    if a.replay:
        only = json.load(open(a.replay))
        a.seed, a.tier = only["seed"], only["tier"]
    ck = core.Check(a.pid, a.tier, a.seed, only)
    try:
        mod = importlib.import_module(f"pimv.checks.{a.pid.lower()}")
        rc = mod.main(ck)
    except core.MachineryError as e:
        print(f"ERROR property={a.pid} machinery: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
        try:
            if ck.rescue(inspect.getsource(mod)):
                rc = ck.finish("model_checking", "stopped early: the records observed were judged without canaries")
        except Exception:
            traceback.print_exc()
        if rc == 2:
            print(f"ERROR property={a.pid} machinery")
    finally:
        if not a.keep:
            ck.close()
        else:
            print("work:", ck.work)
    sys.stdout.flush()
    sys.exit(rc)


main()
