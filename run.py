#!/usr/bin/env python3
"""Entry point of the checks: run.py setup | check <property> | replay <file> | list"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib import build, pool  # noqa: E402
from vlib.report import Check  # noqa: E402


def setup():
    """Are the tools there, do all modules parse, can the package be prepared?"""
    import glob
    import subprocess

    from vlib import tlc

    d = tlc.workdir()
    bad = 0
    for f in sorted(glob.glob(d + "/*.tla")):
        r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", tlc.CP, "tla2sany.SANY", os.path.basename(f)], cwd=d, capture_output=True, text=True)
        if r.returncode or "Semantic errors" in r.stdout or "Parse Error" in r.stdout:
            print(r.stdout[-3000:], r.stderr[-1000:])
            bad += 1
    print("code under test:", build.prepare())
    return 1 if bad else 0


def main(argv):
    if len(argv) >= 2 and argv[0] == "check":
        from checks import CHECKS

        prop = argv[1]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        level, fn = CHECKS[prop]
        ck = Check(prop, tier, seed, level)
        ck.log.append("code under test: " + build.prepare())
        fn(ck)
        return ck.finish()
    if len(argv) >= 2 and argv[0] == "replay":
        doc = json.load(open(argv[1]))
        case = doc["case"]
        build.prepare()
        print(doc["what"])
        r = pool.run(case["suite"], case["func"], [case["task"]])[0]
        print(json.dumps(r, indent=1)[:6000])
        return 1 if (r.get("crash") or r.get("bad")) else 0
    if argv and argv[0] == "setup":
        return setup()
    if argv and argv[0] == "list":
        from checks import CHECKS

        print(" ".join(sorted(CHECKS)))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except build.Machinery as e:
        print("MACHINERY: " + str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
