"""Running TLC on the modules of /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from .build import VERIF, Machinery, scratch

SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCResult:
    def __init__(self):
        self.lines = []      # decoded @@ lines
        self.states = 0
        self.distinct = 0
        self.violated = []   # names of violated invariants / properties
        self.text = ""
        self.coverage = {}
        self.depth = 0


def workdir(files=None):
    """A scratch directory holding all modules and the given extra files."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, text in (files or {}).items():
        with open(os.path.join(d, name), "w") as fh:
            fh.write(text)
    return d


def cfg(spec="Spec", invariants=(), constants=None, postcondition=None, properties=(), constraint=None,
        init=None, next_=None, deadlock=False, view=None, symmetry=None):
    out = []
    if constants:
        out.append("CONSTANTS")
        for k, v in constants.items():
            if isinstance(v, bool):
                v = "TRUE" if v else "FALSE"
            elif isinstance(v, str) and not v.startswith("<-") and not v.startswith("{") and not v.startswith("="):
                v = '"' + v + '"'
            elif isinstance(v, str) and v.startswith("="):
                v = v[1:]
            out.append(f"  {k} {v}" if isinstance(v, str) and v.startswith("<-") else f"  {k} = {v}")
    if init:
        out += [f"INIT {init}", f"NEXT {next_}"]
    else:
        out.append(f"SPECIFICATION {spec}")
    for i in invariants:
        out.append(f"INVARIANT {i}")
    for p in properties:
        out.append(f"PROPERTY {p}")
    if postcondition:
        out.append(f"POSTCONDITION {postcondition}")
    if constraint:
        out.append(f"CONSTRAINT {constraint}")
    if view:
        out.append(f"VIEW {view}")
    if symmetry:
        out.append(f"SYMMETRY {symmetry}")
    out.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(out) + "\n"


def unquote(line):
    # PrintT shows a string as a TLA+ string literal
    s = line.strip()
    if s.startswith('"@@'):
        s = json.loads(s)
    return s[2:]


def run(module, config, files=None, workers=8, timeout=600, heap="4g", extra=(), expect_violation=False):
    d = workdir(files)
    with open(os.path.join(d, module + ".cfg"), "w") as fh:
        fh.write(config)
    cmd = ["java", f"-Djava.io.tmpdir={d}", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-config", module + ".cfg", *extra, module + ".tla"]
    out = os.path.join(d, "out.txt")
    with open(out, "w") as fh:
        try:
            rc = subprocess.run(cmd, stdout=fh, stderr=subprocess.STDOUT, cwd=d, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise Machinery(f"TLC ran longer than {timeout} s on {module}")
    res = TLCResult()
    keep = []
    with open(out) as fh:
        for line in fh:
            if line.startswith('"@@') or line.startswith("@@"):
                res.lines.append(json.loads(unquote(line)))
            else:
                keep.append(line)
    res.text = "".join(keep)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", res.text)
    if m:
        res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"depth of the complete state graph search is (\d+)", res.text)
    if m:
        res.depth = int(m.group(1))
    res.violated = re.findall(r"Error: Invariant (\S+) is violated", res.text)
    res.violated += re.findall(r"Error: Action property (\S+) is violated", res.text)
    if "Temporal properties were violated" in res.text:
        res.violated.append("temporal")
    for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", res.text, re.M):
        res.coverage[m.group(1)] = res.coverage.get(m.group(1), 0) + int(m.group(3))
    shutil.rmtree(d, ignore_errors=True)
    finished = "Model checking completed. No error has been found." in res.text or \
        ("-simulate" in extra and "Finished in" in res.text and "Error:" not in res.text)
    if not finished and not (expect_violation and res.violated):
        at = res.text.find("Error:")
        raise Machinery(f"TLC failed on {module} (rc {rc}):\n" + (res.text[at:at + 3000] if at >= 0 else res.text[-3000:]))
    return res
