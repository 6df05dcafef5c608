"""Confirm planted bugs and keep them under seeded/.

    python3 tools/plant.py DEFS.py [id ...]     confirm and keep
    python3 tools/plant.py --run [id ...]       which checks see which bug

DEFS.py defines SEEDS: a list of dicts with id, property, edits
[(file under src/pykrige, old text, new text)], demo (Python source), needs,
breaks.  Works on copies of /repo under /tmp.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, env=None, t=1200):
    e = dict(os.environ, **(env or {}))
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def copy(name):
    w = f"/tmp/pw/{name}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/pw", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    return w


def compile_if_needed(w, files):
    if any(f.endswith((".pyx", ".pxd")) for f in files):
        return sh([PY, "setup.py", "-q", "build_ext", "--inplace"], w)
    return 0, ""


def confirm(s):
    w = copy(s["id"])
    out = os.path.join(VERIF, "seeded", s["id"])
    tmp = f"/tmp/pw/{s['id']}.out"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(w, "src/pykrige", f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                return f"{s['id']}: text occurs {t.count(old)} times in {f}: {old[:80]!r}"
            open(p, "w", newline="").write(t.replace(old, new))
        _, diff = sh(["git", "diff"], w)
        open(tmp + "/patch.diff", "w", newline="").write(subprocess.run(["git", "diff"], cwd=w, capture_output=True).stdout.decode())
        open(tmp + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(tmp + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(tmp + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        # added lines of my own commits must not be touched
        rc, o = compile_if_needed(w, [f for f, _, _ in s["edits"]])
        if rc:
            return f"{s['id']}: does not build\n{o[-1500:]}"
        a, o = sh(["bash", tmp + "/demo.sh"], "/repo")
        if a:
            return f"{s['id']}: demo fails on the clean tree\n{o[-1500:]}"
        b, o2 = sh(["bash", tmp + "/demo.sh"], w)
        if not b:
            return f"{s['id']}: demo passes with the bug\n{o2[-800:]}"
        rc, o = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], w, {"PYTHONPATH": w + "/src", "PYTHONDONTWRITEBYTECODE": "1"})
        if rc:
            return f"{s['id']}: the tests notice\n{o[-1200:]}"
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        return f"{s['id']}: kept ({(o2.strip().splitlines() or [''])[-1][:150]})"
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


def run(sid, props=None):
    d = os.path.join(VERIF, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    w = copy("run-" + sid)
    res = []
    try:
        rc, o = sh(["git", "apply", d + "/patch.diff"], w)
        if rc:
            return f"{sid}: patch does not apply {o}"
        for p in props or [meta["property"]]:
            rc, o = sh([sys.executable, os.path.join(VERIF, "run.py"), "check", p], VERIF, {"VERIF_REPO": w, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            v = [ln for ln in o.splitlines() if ln.startswith("VIOLATION")]
            n = re.sub(r"\s+", " ", o.strip().splitlines()[0] if o.strip() else "")[:160]
            res.append(f"{p} rc={rc} {'CAUGHT' if rc == 1 and v else 'missed' if rc == 0 else 'BROKEN ' + o[-300:]} {n}")
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return f"{sid}: " + " | ".join(res)


if __name__ == "__main__":
    args = sys.argv[1:]
    if args[0] == "--run":
        ids = args[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(lambda s: run(s.partition("=")[0], [p for p in s.partition("=")[2].split(",") if p]), ids):
                print(r, flush=True)
    else:
        seeds = runpy.run_path(args[0])["SEEDS"]
        if args[1:]:
            seeds = [s for s in seeds if s["id"] in args[1:]]
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(confirm, seeds):
                print(r, flush=True)
