"""Conformance of the real classes with spec/Scenarios.tla (exact answers).

generate() lets TLC enumerate scenarios and solve them exactly; replay() runs
in a worker, builds the scenario with the real classes, puts the request to
every backend that accepts it and compares with the exact answer.
"""
import math
from fractions import Fraction

PRIMES = (46337, 46327, 46309, 46307, 46301, 46279, 46273, 46271, 46261, 46237, 46229, 46219)
ANGLES = ((1, 0), (0, 1), (-1, 0), (0, -1), (4, 3), (3, 4), (-3, 4), (4, -3), (12, 5), (1, 1), (-1, 1))


def generate(focus, lo, hi, seed, workers=8):
    from vlib import tlc

    res = tlc.run(
        "Scenarios",
        tlc.cfg(constants={"Lo": lo, "Hi": hi, "Seed": seed, "Focus": focus}, invariants=["ModelObligations"]),
        workers=workers,
    )
    return res


# --------------------------------------------------------------------------
def h(*a):
    """small deterministic hash for presentation choices"""
    x = 17
    for v in a:
        x = (x * 1103515245 + int(v) * 12345 + 7) % 2147483647
        x ^= x >> 11
    return x


def crt(res):
    """signed integer from residues modulo the first len(res) primes; None: out of range"""
    m, x = 1, 0
    for r, p in res:
        t = ((r - x) * pow(m, -1, p)) % p
        x += m * t
        m *= p
    if x > m // 2:
        x -= m
    if abs(x) > m >> 12:
        return None
    return x


def decode(sol, q):
    """exact estimate and variance (times GScale) of the q-th point"""
    det = [(r, PRIMES[k]) for k, r in enumerate(sol["det"]) if r]
    ks = [k for k, r in enumerate(sol["det"]) if r]
    if len(ks) < max(2, len(sol["det"]) - 2):
        return None
    d = crt(det)
    z = crt([(sol["z"][k][q], PRIMES[k]) for k in ks])
    s = crt([(sol["s"][k][q], PRIMES[k]) for k in ks])
    if d in (0, None) or z is None or s is None:
        return None
    return Fraction(z, d), Fraction(s, d)


def gscale(sc):
    if sc["vk"] == "spherical":
        return 2 * sc["vp"][1] ** 3
    if sc["vk"] == "power2":
        return sc["ds"]
    return 1


def build(sc, pseudo=None, stats=False):
    """the real object for a scenario"""
    import numpy as np
    from pykrige import OrdinaryKriging, OrdinaryKriging3D, UniversalKriging, UniversalKriging3D

    cid = sc["id"]
    u = (1.0, 0.5, 3.0, 100.0, 0.015625, 0.07)[h(cid, 1) % 6]
    if sc["geo"]:
        u = 1.0
    d = sc["drift"]
    # a small area far from the origin, where all the arithmetic on coordinates is exact
    far = (not sc["geo"] and not d["lin"] and not d["fun"] and not d["ext"] and sc["pu"] in (1, 2, 4) and h(cid, 15) % 4 == 0
           and all(ANGLES[a - 1][1] == 0 for a in sc["fr"]["ang"]) and all(a in (1, 2, 4) and b in (1, 2, 4) for a, b in sc["fr"]["sca"]))
    if far:
        u = (2.0**-15, 2.0**-12, 2.0**-18)[h(cid, 16) % 3]
    unit = u / sc["pu"]
    kw = {}
    vp, nug = sc["vp"], sc["nug"]
    model, plist, pdict = None, None, None
    if sc["vk"] == "table":
        def table(m, d):
            t = np.rint((d / m[2]) ** 2 * m[3])
            return np.floor(np.sqrt(m[0] * t)) + m[1]

        kw["variogram_function"] = table
        model, plist = "custom", [vp[0], nug, u, sc["ds"]]
    elif sc["vk"] == "linear":
        model, plist = "linear", [vp[0] / u, nug]
        pdict = {"slope": vp[0] / u, "nugget": nug}
    elif sc["vk"] == "power2":
        model, plist = "power", [vp[0] / u**2, 2, nug]
        pdict = {"scale": vp[0] / u**2, "exponent": 2, "nugget": nug}
    elif sc["vk"] == "spherical":
        model, plist = "spherical", [vp[0] + nug, vp[1] * u, nug]
        pdict = {"psill": vp[0], "range": vp[1] * u, "nugget": nug}
        if h(cid, 2) % 3 == 0:
            pdict = {"sill": vp[0] + nug, "range": vp[1] * u, "nugget": nug}
    kw["variogram_model"] = model
    kw["variogram_parameters"] = pdict if pdict and h(cid, 3) % 2 else plist
    kw["exact_values"] = sc["exact"]
    if pseudo:
        kw["pseudo_inv"], kw["pseudo_inv_type"] = True, pseudo
    three = sc["cls"].endswith("3d")
    ang = []
    for t, a in enumerate(sc["fr"]["ang"]):
        c, s = ANGLES[a - 1]
        ang.append(math.degrees(math.atan2(s, c)) + 360.0 * ((h(cid, 4, t) % 5) in (0,)) - 360.0 * ((h(cid, 4, t) % 5) == 1))
    sca = [a / b for a, b in sc["fr"]["sca"]]
    if three:
        kw.update(
            anisotropy_scaling_y=sca[0], anisotropy_scaling_z=sca[1],
            anisotropy_angle_x=ang[0], anisotropy_angle_y=ang[1], anisotropy_angle_z=ang[2],
        )
    elif not sc["geo"]:
        kw.update(anisotropy_scaling=sca[0], anisotropy_angle=ang[0])
    off = [0.0, 0.0, 0.0]
    if sc["geo"]:
        kw["coordinates_type"] = "geographic"
        pos = lambda p, t=0: circle(sc, p[0], t)
    else:
        # absolute position does not matter unless a drift refers to it
        if not sc["drift"]["fun"] and not sc["drift"]["ext"]:
            off = [u * ((h(cid, 5, t) % 7) - 3) * 4 for t in range(3)]
        if far:
            off = [o + (1.5 * 2**20, -(2.0**19), 2.0**21, -3.0 * 2**18)[h(cid, 17, t) % 4] for t, o in enumerate(off)]
        pos = lambda p, t=0: [c * unit + o for c, o in zip(p, off)]
    P = [pos(p, t) for t, p in enumerate(sc["pts"])]
    dr = sc["drift"]
    if sc["cls"].startswith("uk"):
        terms = []
        if dr["lin"]:
            terms.append("regional_linear")
        if dr["ext"]:
            terms.append("external_Z")
            g = sc["grid"]
            ex, ey, ez = np.array(g["ax"]) * unit, np.array(g["ay"]) * unit, np.array(g["z"], dtype=float)
            if h(cid, 6) % 4 == 0:
                ex, ez = ex[::-1], ez[:, ::-1]
            if h(cid, 7) % 4 == 0:
                ey, ez = ey[::-1], ez[::-1, :]
            if ez.shape[0] != ez.shape[1] and h(cid, 8) % 4 == 0:
                ez = ez.T
            f = (lambda a: a, lambda a: a.tolist(), lambda a: a.reshape(-1, 1))
            kw.update(external_drift=f[h(cid, 11) % 2](ez), external_drift_x=f[h(cid, 12) % 3](ex), external_drift_y=f[h(cid, 13) % 3](ey))
        if dr["spec"]:
            terms.append("specified")
            kw["specified_drift"] = [np.array(a, dtype=float) for a in sc["sdat"]]
        if dr["fun"]:
            terms.append("functional")
            lib = {
                "xy": lambda x, y, z=0: x * y, "xx": lambda x, y, z=0: x * x, "yz": lambda x, y, z=0: y * z, "yy": lambda x, y, z=0: y * y,
                "x": lambda x, y, z=0: x, "y": lambda x, y, z=0: y, "z": lambda x, y, z=0: z,
            }
            kw["functional_drift"] = [lib[c] for c in dr["fun"]]
        if h(cid, 9) % 2:
            terms.reverse()
        kw["drift_terms"] = terms
    if stats and sc["cls"] == "ok":
        kw["enable_statistics"] = True
    cls = {"ok": OrdinaryKriging, "uk": UniversalKriging, "ok3d": OrdinaryKriging3D, "uk3d": UniversalKriging3D}[sc["cls"]]
    A = np.array(P, dtype=float)
    args = [A[:, t] for t in range(A.shape[1])] + [np.array(sc["zs"], dtype=float)]
    way = h(cid, 30) % 4 if stats else 0
    if way:
        # the settings in force come by update: after another variogram, another
        # anisotropy, or both
        names = ("variogram_model", "variogram_parameters", "variogram_function") + tuple(k for k in kw if k.startswith("anisotropy"))
        last = {k: kw[k] for k in names if k in kw}
        first = dict(kw)
        if way in (1, 3):
            first.pop("variogram_function", None)
            first.update(variogram_model="exponential", variogram_parameters=[2.0 + nug, 9.0 * u, 0.5 + nug])
        if way in (2, 3):
            for t, k in enumerate(k for k in kw if k.startswith("anisotropy")):
                first[k] = (37.0 + 20 * t) if "angle" in k else 1.7 + t
        obj = cls(*args, **first)
        if h(cid, 31) % 3 == 0:
            obj.get_epsilon_residuals()
        obj.update_variogram_model(**last)
        return obj, pos, unit
    return cls(*args, **kw), pos, unit


def circle(sc, t, salt):
    """longitude/latitude of position t (degrees) on the scenario's great circle"""
    cid = sc["id"]
    turn = 360.0 * ((h(cid, 11, salt) % 4) - 1) if h(cid, 10) % 2 else 0.0
    if h(cid, 12) % 2:
        lon, lat = (t - 180.0) if h(cid, 13) % 2 else float(t), 0.0
    else:
        base = float(h(cid, 14) % 360 - 180)
        t = t % 360
        if t <= 90:
            lon, lat = base, float(t)
        elif t < 270:
            lon, lat = base + 180.0, 180.0 - t
        else:
            lon, lat = base, t - 360.0
    return [lon + turn, lat]


def backends(sc, focus):
    if sc["k"]:
        b = ["loop"] + (["C"] if sc["cls"] == "ok" and sc["vk"] != "table" else [])
    else:
        b = ["vectorized", "loop"] + (["C"] if sc["cls"] == "ok" and sc["vk"] != "table" else [])
    return b


def wellposed(sol, n):
    """condition number of the system, every row and column brought to size one"""
    import numpy as np

    A = np.array(sol["A"], dtype=float)
    A[:n, :n] /= max(1.0, np.abs(A[:n, :n]).max())
    for k in range(n, A.shape[0]):
        s = max(1.0, np.abs(A[k, :n]).max())
        A[k, :n] /= s
        A[:n, k] /= s
    return np.linalg.cond(A)


def replay(task):
    """one scenario on the real code"""
    import numpy as np

    sc, rq, an = task["sc"], task["rq"], task["an"]
    focus = task["focus"]
    out = {"bad": [], "points": 0, "skipped": 0, "runs": 0, "shapes": []}
    if focus == "stats":
        return replay_stats(task, out)
    if not an["seq"]:
        out["skipped"] = 1
        return out
    # exact expectations
    g = gscale(sc)
    exp = {}
    for t, cell in enumerate(an["seq"]):
        if sc["k"]:
            sol = an["sol"][t]
            if sol.get("tie"):
                continue
            d, n = decode(sol, 0), sc["k"]
        else:
            sol = an["sol"][0]
            d, n = decode(sol, t), len(sol["A"][0])
            n = sum(1 for r in sol["A"] if True)  # rows
            n = len(sc["pts"]) if focus != "pinv" else len(sol["A"]) - 1
        if d is None or wellposed(sol, n) > 1e7:
            continue
        exp[cell - 1] = (float(d[0]), float(d[1] / g))
    # positions whose system is singular make the whole request undefined
    if sc["k"] == 0 and not exp:
        out["skipped"] = 1
        return out
    zscale = max(1.0, max(abs(v) for v in sc["zs"]))
    gs = max(1.0, float(max((abs(v) for r in an["sol"] for row in r.get("A", []) for v in row), default=0)) / g)
    variants = [None]
    if focus == "pinv":
        dup = len(sc["pts"]) > len(set(map(tuple, sc["pts"])))
        variants = ["pinv", "pinvh"] + ([] if dup else [None])
    ways = [(p, b, sc) for p in variants for b in backends(sc, focus)]
    if focus == "pinv" and sc["cls"] in ("ok", "ok3d"):
        # a window of all the points there are
        wide = dict(sc, k=len(sc["pts"]))
        ways += [(p, b, wide) for p in variants for b in backends(wide, focus)]
    for pseudo, backend, sc in ways:
        label = f"{sc['cls']} {sc['vk']} {rq['style']} {backend}" + (f" k={sc['k']}" if sc["k"] else "") + (f" {pseudo}" if pseudo else "")
        out["runs"] += 1
        try:
            obj, pos, unit = build(sc, pseudo)
            res = request(obj, sc, rq, backend, pos, set(exp))
        except Exception as e:
            if sc["k"] and focus != "pinv" and len(exp) < len(an["seq"]):
                continue  # a window of this request may be singular
            out["bad"].append(f"{label}: {type(e).__name__}: {e}"[:300])
            continue
        z, s, m, shape_ok, why = res
        if not shape_ok:
            out["bad"].append(f"{label}: {why}")
            continue
        for t in range(len(rq["cells"])):
            if rq["mask"][t]:
                if not m[t]:
                    out["bad"].append(f"{label}: masked cell {t} answered")
                continue
            if m[t]:
                out["bad"].append(f"{label}: cell {t} masked though not in the mask")
                continue
            if t not in exp:
                continue
            out["points"] += 1
            ez, es = exp[t]
            if not abs(z[t] - ez) <= 3e-6 * (zscale + abs(ez)):
                out["bad"].append(f"{label}: estimate at cell {t} {rq['cells'][t]} is {z[t]!r}, exact {ez!r}")
            if not abs(s[t] - es) <= 3e-6 * (gs + abs(es)):
                out["bad"].append(f"{label}: variance at cell {t} {rq['cells'][t]} is {s[t]!r}, exact {es!r}")
    out["bad"] = out["bad"][:6]
    return out


def request(obj, sc, rq, backend, pos, defined):
    import numpy as np

    cid = sc["id"]
    three = sc["cls"].endswith("3d")
    kw = {"backend": backend}
    if sc["k"]:
        kw["n_closest_points"] = sc["k"]
    dim = 3 if three else 2
    if rq["style"] == "points":
        Q = np.array([pos(c, 50 + t) for t, c in enumerate(rq["cells"])], dtype=float)
        args = [Q[:, t] for t in range(dim)]
        shape = (len(rq["cells"]),)
    else:
        zero = [0] * dim
        axes = []
        for a in range(dim):
            col = []
            for v in rq["axes"][a]:
                p = list(zero)
                p[a] = v
                col.append(pos(p)[a])
            axes.append(np.array(col, dtype=float))
        args = axes
        shape = tuple(len(a) for a in reversed(axes))
    if rq["style"] == "masked":
        mask = np.array(rq["mask"], dtype=bool).reshape(shape)
        if shape[0] != shape[-1] and h(cid, 20) % 3 == 0:
            mask = np.ascontiguousarray(np.swapaxes(mask, 0, -1))
        kw["mask"] = mask
    if sc["drift"]["spec"]:
        arrs = []
        for d in range(sc["drift"]["spec"]):
            a = np.array([row[d] for row in rq["sv"]], dtype=float).reshape(shape)
            if rq["style"] != "points" and shape[0] != shape[-1] and h(cid, 21, d) % 3 == 0:
                a = np.swapaxes(a, 0, -1)
            arrs.append(a)
        kw["specified_drift_arrays"] = arrs
    if h(cid, 22) % 5 == 0:
        args = [a.tolist() for a in args]
    z, s = obj.execute(rq["style"], *args, **kw)
    if z.shape != shape or s.shape != shape:
        return None, None, None, False, f"shape {z.shape}/{s.shape} instead of {shape}"
    if rq["style"] == "masked":
        if not (np.ma.isMaskedArray(z) and np.ma.isMaskedArray(s)):
            return None, None, None, False, "masked request not answered with masked arrays"
        mz, ms = np.ma.getmaskarray(z).ravel(), np.ma.getmaskarray(s).ravel()
        if not np.array_equal(mz, ms):
            return None, None, None, False, "estimate and variance are masked differently"
        m = mz
    else:
        m = np.zeros(len(rq["cells"]), bool)
        if np.ma.getmaskarray(z).any() or np.ma.getmaskarray(s).any():
            return None, None, None, False, "an unmasked request came back with masked cells"
    zz, ss = np.ma.getdata(z).ravel(), np.ma.getdata(s).ravel()
    return zz, ss, m, True, ""


def replay_stats(task, out):
    import numpy as np

    sc, an = task["sc"], task["an"]
    g = gscale(sc)
    delta, sig = [], []
    gs = 1.0
    for t, sol in zip(an["seq"], an["sol"]):
        d = decode(sol, 0)
        if d is None or wellposed(sol, t - 1) > 1e7:
            out["skipped"] = 1
            return out
        z, s = d[0], d[1] / g
        gs = max(gs, abs(float(s)))
        if float(s) < 1e-6:
            if s == 0:
                continue
            out["skipped"] = 1
            return out
        delta.append(float(sc["zs"][t - 1] - z))
        sig.append(math.sqrt(float(s)))
    if len(delta) < 3:
        out["skipped"] = 1
        return out
    out["runs"] += 1
    label = f"{sc['cls']} {sc['vk']} statistics"
    try:
        obj, pos, unit = build(sc, None, stats=True)
        got = [np.asarray(obj.delta), np.asarray(obj.sigma), np.asarray(obj.get_epsilon_residuals())]
        q = [float(v) for v in obj.get_statistics()]
    except Exception as e:
        out["bad"].append(f"{label}: {type(e).__name__}: {e}"[:300])
        return out
    delta, sig = np.array(delta), np.array(sig)
    eps = delta / sig
    q2 = float(np.sum(eps**2) / (len(eps) - 1))
    want = [abs(float(np.sum(eps) / (len(eps) - 1))), q2, q2 * math.exp(float(np.sum(np.log(sig**2))) / len(eps))]
    for name, a, b in zip(("residuals", "standard errors", "normalized residuals"), got, (delta, sig, eps)):
        out["points"] += len(b)
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-5, atol=1e-5):
            out["bad"].append(f"{label}: {name} {a.tolist()} instead of {b.tolist()}")
    for name, a, b in zip(("Q1", "Q2", "cR"), q, want):
        if not abs(a - b) <= 1e-5 * (1 + abs(b)):
            out["bad"].append(f"{label}: {name} {a!r} instead of {b!r}")
    return out

# ---------------------------------------------------------------- known case
REPEATED = {"x": [0.0, 4.0, 1.0, 6.0, 3.0, 6.0], "y": [0.0, 1.0, 5.0, 4.0, 3.0, 4.0], "v": [1.0, 3.0, -2.0, 2.0, 0.5, 2.0]}


def replay_repeated(task):
    """a place sampled twice with the same value, a nugget, exact values"""
    import numpy as np
    import pykrige

    names = {"ok": "OrdinaryKriging", "uk": "UniversalKriging", "ok3d": "OrdinaryKriging3D", "uk3d": "UniversalKriging3D"}
    co = [np.array(REPEATED["x"]), np.array(REPEATED["y"])]
    if task["cls"].endswith("3d"):
        co.append(np.zeros(6))
    o = getattr(pykrige, names[task["cls"]])(*co, np.array(REPEATED["v"]), variogram_model="linear", variogram_parameters=[1.0, 0.5])
    z, s = o.execute("points", *[c[3:4] for c in co])
    bad = []
    if abs(z[0] - 2.0) > 1e-9 or abs(s[0]) > 1e-9:
        bad.append(f"{names[task['cls']]}, linear variogram with nugget 0.5, x={REPEATED['x']}, y={REPEATED['y']}, values={REPEATED['v']}: "
                   f"estimate {float(z[0]):.4f} and variance {float(s[0]):.4f} at the repeated place (6, 4) instead of 2 and 0")
    return {"bad": bad}


def repeated(ck):
    """the case recorded in known_findings.txt"""
    from vlib import pool

    tasks = [{"cls": c} for c in ("ok", "uk", "ok3d", "uk3d")]
    for t, r in zip(tasks, pool.run("exact", "replay_repeated", tasks)):
        ck.count("repeated_places_asked")
        for b in [r["crash"]] if "crash" in r else r["bad"]:
            ck.violation("[repeated place] " + b, {"suite": "exact", "func": "replay_repeated", "task": t}, key="repeated place, nugget, exact values, " + t["cls"])


# --------------------------------------------------------------------------
def check(ck, focus, count, seconds_note=None):
    """TLC generates `count` scenarios, the real code answers them."""
    from vlib import pool

    lo = 1
    res = generate(focus, lo, lo + count - 1, ck.seed)
    tasks = [dict(t, focus=focus) for t in res.lines]
    ck.count("states", res.distinct)
    ck.count("transitions", res.states)
    results = pool.run("exact", "replay", tasks)
    for t, r in zip(tasks, results):
        if "crash" in r:
            ck.violation(f"[{focus}] scenario {t['sc']['id']}: {r['crash']}"[:800], {"suite": "exact", "func": "replay", "task": t})
            continue
        ck.count("scenarios_" + focus)
        ck.count("requests_replayed", r["runs"])
        ck.count("answers_compared", r["points"])
        ck.count("scenarios_skipped_as_singular", r["skipped"])
        if r["runs"] and not r["skipped"]:
            ck.count("traces_validated_against_impl")
        for b in r["bad"]:
            ck.violation(f"[{focus}] scenario {t['sc']['id']}: {b}", {"suite": "exact", "func": "replay", "task": t}, key=f"exact {focus}")
            break
    if tasks:
        t = tasks[len(tasks) // 2]
        ck.sample({"scenario": t["sc"], "request": t["rq"]})
    return res
