"""Conformance of the grid files with spec/GridFiles.tla."""
import os
import random
from fractions import Fraction


def frac(v):
    return Fraction(v["m"]) * Fraction(10) ** v["e"]


def lost(v, digits_kept):
    """half a unit of the last digit when digits are lost, else 0"""
    q = frac(v) * 10**digits_kept
    return Fraction(0) if q.denominator == 1 else Fraction(1, 2 * 10**digits_kept)


def zlost(v):
    a = abs(frac(v))
    if a < 10**6:
        return lost(v, 4)
    n = len(str(abs(v["m"])))
    if n <= 8:
        return Fraction(0)
    return Fraction(10) ** (n - 8 + v["e"]) / 2


def cents(a):
    return Fraction(0) if a % 20 == 0 else Fraction(1, 200)


HOLE = 99


class Expect:
    """what reading a file has to yield: numbers with the rounding allowed"""

    def __init__(self, ev, off, unit=1):
        g = ev["grid"]
        u = lambda a: Fraction(a, 2000) / unit
        style = ev.get("style", 0) if ev["op"] == "asc" else 0
        sx = {0: Fraction(0), 1: cents(g["x0"]), 2: cents(g["x0"] - g["dx"] // 2) + cents(g["dx"]) / 2}[style]
        sy = {0: Fraction(0), 1: cents(g["y0"]), 2: cents(g["y0"] - g["dy"] // 2) + cents(g["dy"]) / 2}[style]
        cx, cy = (cents(g["dx"]), cents(g["dy"])) if style else (Fraction(0), Fraction(0))
        self.x = [(u(g["x0"] + i * g["dx"]) + off[0], sx + i * cx) for i in range(g["nx"])]
        self.y = [(u(g["y0"] + i * g["dy"]) + off[1], sy + i * cy) for i in range(g["ny"])]
        self.dx, self.dy = (u(g["dx"]), cx), (u(g["dy"]), cy)
        self.nodata = (frac(g["nodata"]), Fraction(0))
        z = ev["op"] == "zmap"
        keep = zlost if z else (lambda v: lost(v, 2)) if style else (lambda v: Fraction(0))
        self.z = [[self.nodata if c["e"] == HOLE else (frac(c), keep(c)) for c in row] for row in g["rows"]]
        if ev["op"] == "author":
            self.pair = any(t[0]["key"] == "DX" for t in ev["text"][: ev["head"]])
        else:
            self.pair = ev["op"] != "asc" or style == 1
        self.crs = ev.get("crs")
        self.zmap = ev["op"] in ("zmap", "authorz")


def near(got, want, extra=0.0):
    v, s = want
    try:
        got = float(got)
    except (TypeError, ValueError):
        return False
    if got != got or got in (float("inf"), float("-inf")):
        return False
    return abs(Fraction(got) - v) <= s * (1 + Fraction(1, 10**9)) + abs(v) * Fraction(1, 10**15) + Fraction(extra)


def text_of(tok):
    if "key" in tok:
        return tok["key"]
    if "int" in tok:
        return str(tok["int"])
    if "num" in tok:
        return None
    return None


def decimal(v, r):
    """some spelling of m * 10^e"""
    if v["e"] == 0:
        return str(v["m"]) if r.random() < 0.6 else str(v["m"]) + ".0"
    if v["e"] < 0 and r.random() < 0.7:
        s = str(abs(v["m"])).rjust(-v["e"] + 1, "0")
        return ("-" if v["m"] < 0 else "") + s[: v["e"]] + "." + s[v["e"]:]
    return f"{v['m']}{r.choice('eE')}{'+' if v['e'] >= 0 and r.random() < 0.5 else ''}{v['e']}"


def length(a, off):
    f = Fraction(a, 2000) + off
    s = "%d.%04d" % divmod(abs(f.numerator) * 10000 // f.denominator, 10000)
    return ("-" if f < 0 else "") + s.rstrip("0").rstrip(".")


def author(ev, path, off, r):
    cases = [str.upper, str.lower, str.title, lambda k: "".join(r.choice((str.upper, str.lower))(c) for c in k)]
    sep = lambda: r.choice((" ", "  ", "\t", "        "))
    lines = []
    for t, line in enumerate(ev["text"]):
        if t < ev["head"]:
            k, v = line[0]["key"], line[1]
            if "num" in v:
                o = off[0] if k.startswith("X") else off[1] if k.startswith("Y") else 0
                s = length(v["num"], o)
            else:
                s = str(v["int"]) if "int" in v else decimal(v["dec"], r)
            lines.append(cases[ev["case"]](k) + sep() + s + r.choice(("", "", "  ")))
        else:
            lines.append(r.choice(("", " ")) + sep().join(decimal(c["dec"], r) for c in line))
    lines += ["end of grid " + str(i) for i in range(ev["footer"])]
    with open(path, "w") as f:
        f.write("\n".join(lines) + r.choice(("\n", "\n", "")))


def authorz(ev, path, off, r):
    name, size, third = ev["text"][:3]
    lines = ["!"] + [f"! made {r.choice(('elsewhere', 'on: 3 May', '@ night'))}"] * r.randrange(2)
    if ev["comment"]:
        lines.append(f"!     COORDINATE REFERENCE SYSTEM{r.choice((':', ' :'))} {ev['crs']}")
    sep = r.choice((", ", ",  ", " , "))
    lines.append(f"@Grid HEADER{sep.rstrip()} GRID, {r.choice((5, 1, 4, 7))}")
    lines.append(" 15, " + decimal(size[1]["dec"], r) + ", , 1, 1")
    nums = [length(t["num"], off[0] if i < 2 else off[1]) for i, t in enumerate(third[3:])]
    lines.append(" " * r.randrange(4) + ", ".join([str(third[1]["int"]), str(third[2]["int"])] + nums))
    lines += ["   0.0, 0.0, 0.0", "@"]
    for line in ev["text"][3:]:
        lines.append(r.choice((" ", "   ")) + r.choice((" ", "  ", "\t")).join(decimal(c["dec"], r) for c in line))
    with open(path, "w") as f:
        f.write("\n".join(lines) + r.choice(("\n", "\n\n", "")))


def damage(how, path, foot):
    with open(path) as f:
        lines = f.read().rstrip("\n").split("\n")
    at = len(lines) - 1 - foot
    if how == "cut":
        lines[at] = " ".join(lines[at].split()[:-1])
        if not lines[at]:
            del lines[at]
    elif how == "grow":
        lines[at] += " 7.0"
    elif how == "drop":
        del lines[at]
    else:
        lines.insert(at, lines[at])
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def written(ev, path, off, e):
    """the file just written, read by its tokens"""
    body = open(path).read()
    if ev["op"] == "asc":
        head, rest = {}, []
        for line in body.splitlines():
            t = line.split()
            if len(t) == 2 and t[0][:1].isalpha():
                head[t[0].lower()] = t[1]
            else:
                rest += t
        want = {"ncols": (Fraction(len(e.x)), 0), "nrows": (Fraction(len(e.y)), 0), "nodata_value": e.nodata}
        if ev["style"] == 1:
            want.update({"xllcenter": e.x[0], "yllcenter": e.y[0], "dx": e.dx, "dy": e.dy})
        else:
            h = lambda a, d: (a[0] - d[0] / 2, Fraction(1, 200) if (a[0] - d[0] / 2) * 100 % 1 else Fraction(0))
            want.update({"xllcorner": h(e.x[0], e.dx), "yllcorner": h(e.y[0], e.dy), "cellsize": e.dx})
        if set(head) != set(want):
            return f"header has {sorted(head)}"
        for k, w in want.items():
            if not near(head[k], w, 1e-9):
                return f"header says {k} {head[k]}, not {float(w[0])}"
        order = [c for row in reversed(e.z) for c in row]
    else:
        lines = body.splitlines()
        at = [i for i, s in enumerate(lines) if s.startswith("@")]
        if len(at) != 2:
            return "no zmap header"
        rest = " ".join(lines[at[1] + 1:]).split()
        if any(len(s.split()) > 5 for s in lines[at[1] + 1:]):
            return "more than five values in a line"
        order = [row[i] for i in range(len(e.x)) for row in reversed(e.z)]
    if len(rest) != len(order):
        return f"{len(rest)} values in the file for {len(order)} cells"
    for t, w in zip(rest, order):
        if not near(t, w):
            return f"{t} in the file for {float(w[0])}"
    return ""


def replay(task):
    import pathlib
    import shutil
    import tempfile
    import warnings

    import numpy as np
    from pykrige import kriging_tools as kt

    warnings.simplefilter("ignore")
    out = {"bad": [], "seen": 0, "reads": 0, "writes": 0, "refused": 0}
    r = random.Random(f"files/{task['no']}/{task['seed']}")
    d = tempfile.mkdtemp(dir=os.getcwd())
    big = r.random() < 0.4
    off = (Fraction(r.choice((500000, 3000000, -120000))), Fraction(r.choice((5600000, -4000000)))) if big else (Fraction(0), Fraction(0))
    name = {"a": os.path.join(d, "a file.asc"), "b": os.path.join(d, "b")}
    expect, foot = {}, {}
    log = []

    def bad(s):
        out["bad"].append((s + " | " + "; ".join(log))[:1200])

    def axes(g, unit=1):
        x = [float(Fraction(g["x0"] + i * g["dx"], 2000) / unit + off[0]) for i in range(g["nx"])]
        y = [float(Fraction(g["y0"] + i * g["dy"], 2000) / unit + off[1]) for i in range(g["ny"])]
        return x, y

    def shaped(a):
        how = r.randrange(5)
        a = np.array(a, dtype=float)
        if how == 3 and (a == np.round(a)).all():
            return a.astype(int)
        return a.tolist() if how == 0 else a.reshape(-1, 1) if how == 1 else np.repeat(a, 2)[::2] if how == 2 else a

    def path(f):
        return pathlib.Path(name[f]) if r.random() < 0.3 else name[f]

    for step in task["steps"]:
        op = step["op"]
        if op in ("asc", "zmap"):
            g = step["grid"]
            # the axes of a zmap file are printed with all their digits
            unit = r.choice((1, 1, 20000, 3)) if op == "zmap" and not big else 1
            e = Expect(step, off, unit)
            x, y = axes(g, unit)
            hole = np.array([[c["e"] == HOLE for c in row] for row in g["rows"]])
            z = np.array([[0.0 if c["e"] == HOLE else float(frac(c)) for c in row] for row in g["rows"]])
            nd = float(e.nodata[0])
            if hole.any() and op == "zmap" and g["nan"]:
                z[hole] = np.nan
                if r.random() < 0.3:
                    z = np.ma.array(z, mask=np.zeros_like(hole))
            elif hole.any() or r.random() < 0.3:
                z[hole] = r.choice((0.0, 1e5, -3.25))
                z = np.ma.array(z, mask=hole)
            elif r.random() < 0.25 and all(c["e"] >= 0 and c["e"] <= 4 for row in g["rows"] for c in row):
                z = z.astype(np.int64)
            elif r.random() < 0.2:
                z = z.tolist()
            elif r.random() < 0.3:
                z = np.asfortranarray(z)
            kw = {}
            if nd != -999.0 or r.random() < 0.5:
                kw["no_data"] = int(nd) if nd == int(nd) and abs(nd) < 1e6 and r.random() < 0.3 else nd
            if op == "asc":
                if step["style"] != 1 or r.random() < 0.5:
                    kw["style"] = step["style"]
            elif step["crs"] != "<null>" or r.random() < 0.5:
                kw["coord_sys"] = step["crs"]
            xs, ys = shaped(x), shaped(y)
            keep = [np.array(a, copy=True) if not isinstance(a, np.ma.MaskedArray) else a.copy() for a in (xs, ys, z)]
            log.append(f"{op}({g['nx']}x{g['ny']}, {kw}) x={x[:2]} y={y[:2]} -> {step['file']}")
            out["writes"] += 1
            try:
                getattr(kt, f"write_{op}_grid")(xs, ys, z, path(step["file"]), **kw)
            except Exception as ex:
                bad(f"a regular grid was refused: {type(ex).__name__}: {ex}")
                break
            for a, b in zip(keep, (xs, ys, z)):
                same = np.array_equal(np.ma.filled(np.ma.asarray(a, dtype=float), 7e7), np.ma.filled(np.ma.asarray(b, dtype=float), 7e7), equal_nan=True)
                if not same:
                    bad("writing changed its arguments")
            expect[step["file"]], foot[step["file"]] = e, 0
            w = written(step, name[step["file"]], off, e)
            if w:
                bad("file written: " + w)
        elif op == "author":
            author(step, name[step["file"]], off, r)
            log.append(f"authored {[t[0]['key'] for t in step['text'][:step['head']]]} {step['grid']['nx']}x{step['grid']['ny']} footer {step['footer']} -> {step['file']}")
            expect[step["file"]], foot[step["file"]] = Expect(step, off), step["footer"]
        elif op == "authorz":
            authorz(step, name[step["file"]], off, r)
            log.append(f"authored zmap {step['grid']['nx']}x{step['grid']['ny']} crs {step['crs']} -> {step['file']}")
            expect[step["file"]], foot[step["file"]] = Expect(step, off), 0
        elif op == "damage":
            damage(step["how"], name[step["file"]], foot[step["file"]])
            log.append(f"{step['how']} the end of {step['file']}")
        elif op == "refuse":
            g, why = step["grid"], step["why"]
            x, y = axes(g)
            z = np.arange(g["nx"] * g["ny"], dtype=float).reshape(g["ny"], g["nx"])
            kw = {"style": r.choice((1, 1, 2)) if g["dx"] == g["dy"] else 1}
            dx, dy = x[1] - x[0], y[1] - y[0]
            if why.endswith("bent x"):
                x[-1] += r.choice((0.5, -0.4, 3)) * dx
            elif why.endswith("bent y"):
                y[0] -= r.choice((0.5, 0.3, 2)) * dy
            elif why.endswith("bent middle"):
                # first step and mean step agree
                if r.random() < 0.5:
                    x[2] += r.choice((0.5, -0.4)) * dx
                else:
                    y[2] += r.choice((0.5, -0.4)) * dy
            elif why == "style":
                kw["style"] = r.choice((0, 3, -1))
            elif why == "square":
                kw["style"] = 2
            elif why.endswith("flat"):
                z = z.ravel() if r.random() < 0.5 else z[None].repeat(2, 0)
            fmt = "zmap" if why.startswith("z") else "asc"
            if fmt == "zmap":
                kw = {}
            p = name[step["file"]]
            before = open(p, "rb").read() if os.path.exists(p) else None
            log.append(f"refuse {fmt} {why} {kw} x={x} y={y} -> {step['file']}")
            out["refused"] += 1
            try:
                getattr(kt, f"write_{fmt}_grid")(np.array(x), np.array(y), z, p, **kw)
                bad(f"a grid that cannot be written ({why}) was not refused")
                # what is there now is of no further interest
                if before is None:
                    os.path.exists(p) and os.unlink(p)
                else:
                    open(p, "wb").write(before)
            except Exception:
                after = open(p, "rb").read() if os.path.exists(p) else None
                if before != after:
                    bad("a refused write changed the file that was there" if before is not None else "a refused write left a file behind")
                    if before is not None:
                        open(p, "wb").write(before)
        elif op == "read":
            f = step["file"]
            e = expect.get(f)
            before = open(name[f], "rb").read()
            out["reads"] += 1
            log.append(f"read {f}")
            try:
                if e.zmap:
                    z, x, y, cs, nd, crs = kt.read_zmap_grid(path(f))
                else:
                    kw = {"footer": foot[f]} if foot[f] or r.random() < 0.3 else {}
                    (z, x, y, cs, nd), crs = kt.read_asc_grid(path(f), **kw), ""
            except Exception as ex:
                if step["whole"]:
                    bad(f"reading failed: {type(ex).__name__}: {ex}")
                else:
                    out["refused"] += 1
                continue
            if not step["whole"]:
                bad("a file whose body does not match its header was read")
                continue
            if open(name[f], "rb").read() != before:
                bad("reading changed the file")
            if np.shape(z) != (len(e.y), len(e.x)):
                bad(f"grid of shape {np.shape(z)}, not {(len(e.y), len(e.x))}")
                continue
            for what, got, want in (("x", x, e.x), ("y", y, e.y)):
                if np.shape(got) != (len(want),):
                    bad(f"{what} axis of shape {np.shape(got)} for {len(want)} values")
                    continue
                size = max(abs(float(w[0])) for w in want) + 1
                for i, (a, w) in enumerate(zip(got, want)):
                    if not near(a, w, 1e-14 * size * (2 + i)):
                        bad(f"{what}[{i}] is {float(a)!r}, not {float(w[0])!r}")
                        break
            size = float(max(abs(e.x[-1][0]), abs(e.y[-1][0]), abs(e.x[0][0]), abs(e.y[0][0]))) + 1
            pair = isinstance(cs, (tuple, list, np.ndarray))
            if pair != e.pair or not all(near(a, w, 1e-14 * size) for a, w in zip(cs if pair else (cs, cs), (e.dx, e.dy))):
                bad(f"cell size {cs}, not {float(e.dx[0])}, {float(e.dy[0])}")
            if not near(nd, e.nodata):
                bad(f"no-data value {nd}, not {float(e.nodata[0])}")
            if e.zmap and crs != e.crs:
                bad(f"coordinate system {crs!r}, not {e.crs!r}")
            for j, row in enumerate(e.z):
                for i, w in enumerate(row):
                    out["seen"] += 1
                    if not near(z[j][i], w):
                        bad(f"cell [{j}, {i}] is {float(z[j][i])!r}, not {float(w[0])!r}")
                        break
                else:
                    continue
                break
    shutil.rmtree(d, ignore_errors=True)
    # an independent control: the expectation itself, shifted by one row, must be rejected
    out["bad"] = out["bad"][:4]
    return out


def check(ck, count, only):
    """only: formats that this property speaks of"""
    from concurrent.futures import ThreadPoolExecutor

    from vlib import pool, tlc

    def part(lo, hi):
        return tlc.run("GridFiles", tlc.cfg(constants={"Lo": lo, "Hi": hi, "Seed": ck.seed, "Ops": only}, invariants=["RoundTrip", "DamageNoticed", "Emit"], properties=["OneFile"], view="View"),
                       workers=2, timeout=3000)

    step = -(-count // 6)
    with ThreadPoolExecutor(6) as ex:
        parts = list(ex.map(lambda s: part(1 + s * step, min(count, (s + 1) * step)), range(-(-count // step))))
    runs = {}
    for r in parts:
        for x in r.lines:
            runs.setdefault(x["no"], []).append((x["l"], x["ev"]))
    tasks = [{"no": n, "seed": ck.seed, "steps": [e for _, e in sorted(v, key=lambda t: t[0])]} for n, v in sorted(runs.items())]
    for t in tasks:
        for s in t["steps"]:
            s.pop("got", None)
            if s["op"] in ("asc", "zmap"):
                s.pop("text", None)
    ck.count("states", sum(r.distinct for r in parts))
    ck.count("transitions", sum(r.states for r in parts))
    for t, r in zip(tasks, pool.run("gridfiles", "replay", tasks)):
        for b in [r["crash"]] if "crash" in r else r["bad"][:1]:
            ck.violation(f"[grid files] history {t['no']}: {b}"[:1200], {"suite": "gridfiles", "func": "replay", "task": t})
        if "crash" not in r:
            ck.count("histories")
            ck.count("traces_validated_against_impl")
            ck.count("files_written", r["writes"])
            ck.count("files_read", r["reads"])
            ck.count("writes_refused", r["refused"])
            ck.count("cells_compared", r["seen"])
    ck.sample(tasks[len(tasks) // 2])
