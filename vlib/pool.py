"""Running conformance tasks on the real code in separate processes.

A task that kills its process (memory corruption, abort) or does not end is
reported as such and does not stop the others.
"""
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

from . import build

TASK_SECONDS = 60
HANGS = 3
HUNG = 79


def run(suite, func, tasks, nproc=None, seconds=TASK_SECONDS):
    """tasks: list of JSON values; returns the list of results in order.
    A result is the value returned by suites.<suite>.<func>(task), or
    {"crash": text} when the process died or hung.  When tasks keep hanging,
    the rest of them are not tried any more."""
    build.prepare()
    nproc = min(nproc or os.cpu_count() or 4, max(1, len(tasks)))
    results = [None] * len(tasks)
    d = os.path.join(build.scratch(), f"pool-{time.monotonic_ns()}")
    os.makedirs(d)
    chunks = [list(range(k, len(tasks), nproc)) for k in range(nproc)]
    live = {}
    hangs = 0

    def start(k, todo):
        inp = os.path.join(d, f"in{k}.jsonl")
        out = os.path.join(d, f"out{k}.jsonl")
        with open(inp, "w") as f:
            for t in todo:
                f.write(json.dumps([t, tasks[t]]) + "\n")
        err = open(os.path.join(d, f"err{k}.txt"), "w")
        p = subprocess.Popen(
            [build.PY, "-m", "vlib.pool", suite, func, inp, out, str(seconds)],
            env=build.env(), cwd=d, stdout=err, stderr=err,
        )
        live[k] = (p, todo, out, err.name)

    for k, todo in enumerate(chunks):
        start(k, todo)
    while live:
        for k in list(live):
            p, todo, out, err = live[k]
            rc = p.poll()
            if rc is None:
                continue
            del live[k]
            begun, done = None, set()
            if os.path.exists(out):
                for line in open(out):
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    if "s" in rec:
                        begun = rec["s"]
                    else:
                        results[rec["i"]] = rec["r"]
                        done.add(rec["i"])
            rest = [t for t in todo if t not in done]
            hung = rc in (HUNG, -signal.SIGALRM)
            hangs += hung
            if hangs >= HANGS and rest:
                for t in rest:
                    results[t] = {"crash": "not tried: the tasks before it gave no answer"}
                if hung and begun is not None and begun not in done:
                    results[begun] = {"crash": "no answer within %s s" % seconds}
                for q, _, _, _ in live.values():
                    q.terminate()
                continue
            if rest and rc == HUNG:
                start(k, rest)
                continue
            if rest:
                if begun is None or begun in done:
                    msg = open(err).read()[-3000:]
                    if rc == 77:
                        # the code under test cannot even be imported
                        for t in rest:
                            results[t] = {"crash": "import failed: " + msg}
                        continue
                    raise build.Machinery(f"worker of {suite}.{func} ended (rc {rc}):\n{msg}")
                sig = signal.Signals(-rc).name if rc < 0 else f"exit {rc}"
                results[begun] = {"crash": "no answer within %s s" % seconds if sig == "SIGALRM" else "process died: " + sig}
                rest = [t for t in rest if t != begun]
                if rest:
                    start(k, rest)
        time.sleep(0.02)
    for r in results:
        if isinstance(r, dict) and "harness" in r:
            raise build.Machinery("harness error in %s.%s: %s" % (suite, func, r["harness"]))
    return results


def main():
    suite, func, inp, out, seconds = sys.argv[1:]
    import warnings

    warnings.simplefilter("ignore")
    try:
        import pykrige  # noqa: F401
        import pykrige.ck, pykrige.rk, pykrige.compat, pykrige.kriging_tools  # noqa: F401,E401
    except BaseException as e:
        print("import of pykrige failed:", repr(e))
        sys.exit(77)
    where = os.path.realpath(pykrige.__file__)
    expected = os.path.realpath(os.path.dirname(os.environ["PYTHONPATH"].split(os.pathsep)[0]))
    if not where.startswith(expected):
        print("wrong pykrige", where)
        sys.exit(78)
    mod = importlib.import_module("suites." + suite)
    fn = getattr(mod, func)
    with open(out, "a") as o:
        for line in open(inp):
            t, task = json.loads(line)
            o.write(json.dumps({"s": t}) + "\n")
            o.flush()
            signal.alarm(int(seconds))
            try:
                r = fn(task)
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                text = "".join(traceback.format_exception(e))[-2500:]
                inside = getattr(e, "inside", False) or any("/pkg/pykrige/" in f.filename for f in tb)
                r = {"crash" if inside else "harness": text}
            signal.alarm(0)
            o.write(json.dumps({"i": t, "r": r}) + "\n")
            o.flush()
            if isinstance(r, dict) and r.get("hung"):
                # threads that do not end may hold what the next tasks need
                os._exit(HUNG)


if __name__ == "__main__":
    main()
