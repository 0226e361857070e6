"""python -m harness.check C01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import traceback

from . import common


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(f"harness.{a.prop.lower()}")
    ck = common.Check(a.prop, a.tier, seed)
    try:
        if a.replay:
            job = json.load(open(a.replay))["job"]
            ck.validate(mod.SPEC, common.run_jobs(mod.__name__, [tuple(job)]))
        else:
            mod.run(ck)
        rc = ck.finish()
    except common.Machinery as e:
        print("MACHINERY ERROR:", e)
        rc = 2
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
