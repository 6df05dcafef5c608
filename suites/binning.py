"""Conformance of the experimental semivariogram with spec/Binning.tla."""
import math

from .exact import ANGLES, circle, h


def table(task, choice):
    """mean distances and semivariances of the non-empty classes; a pair on the
    border of two inner classes belongs to the upper or lower one"""
    rows = [[] for _ in task["classes"]]
    n = 0
    for c, pairs in enumerate(task["classes"]):
        for t, dz, edge in pairs:
            up = not edge or choice >> n & 1
            n += edge
            rows[c if up else c - 1].append((t if task["geo"] else math.sqrt(t / task["unitsq"]), dz / 2.0))
    return [(math.fsum(d for d, _ in r) / len(r), math.fsum(g for _, g in r) / len(r)) for r in rows if r]


def near_edge(task):
    """floating point cannot tell on which side of a border a distance lies"""
    if task["geo"]:
        # arcs are computed from sines and cosines
        pass
    d = [t if task["geo"] else math.sqrt(t / task["unitsq"]) for pairs in task["classes"] for t, _, e in pairs if not e]
    alld = d + [t if task["geo"] else math.sqrt(t / task["unitsq"]) for pairs in task["classes"] for t, _, e in pairs if e]
    m, M, L = min(alld), max(alld), task["nlags"]
    if m == M:
        return False
    for n in range(1, L):
        b = m + n * (M - m) / L
        if any(abs(x - b) < 1e-8 * M and x != M and x != m for x in d):
            return True
    # distances that coincide exactly may differ in floating point, which
    # matters at the ends only
    return False


def replay(task):
    import numpy as np
    import pykrige

    out = {"bad": [], "seen": 0}
    cid = task["no"]
    three = task["cls"].endswith("3d")
    edges = sum(e for pairs in task["classes"] for _, _, e in pairs)
    if near_edge(task):
        out["skipped"] = 1
        return out
    if edges > 9:
        out["skipped"] = 1
        return out
    want = [table(task, c) for c in reversed(range(2**edges))]
    for u, off, g in ((1.0, 0.0, 1.0), (1.0, 5e6, 1.0), (1e3, 50.0, 1e-3), (1e-2, 0.0, 30.0), (1.0, -17.0, 2.0)) + ((2.0**50, 0.0, 1.0), (1e-6, 0.0, 0.1))[cid % 2 : cid % 2 + 1]:
        if len(task["pts"]) > 20 and u not in (1.0, 1e3):
            continue
        level = 3.0 if g == 2.0 else 3e8 / 7 if off == 5e6 else 0.0
        if task["geo"]:
            u, off = 1.0, 0.0
            P = [circle({"id": cid}, p[0], t) for t, p in enumerate(task["pts"])]
        else:
            P = [[c * u + off for c in p] for p in task["pts"]]
        A = np.array(P, dtype=float)
        zs = np.array(task["zs"], dtype=float) * g + level
        ang = [math.degrees(math.atan2(*reversed(ANGLES[a - 1]))) for a in task["fr"]["ang"]]
        sca = [a / b for a, b in task["fr"]["sca"]]
        if three:
            ani = dict(anisotropy_scaling_y=sca[0], anisotropy_scaling_z=sca[1], anisotropy_angle_x=ang[0], anisotropy_angle_y=ang[1], anisotropy_angle_z=ang[2])
        else:
            ani = dict(anisotropy_scaling=sca[0], anisotropy_angle=ang[0])
        kw = dict(variogram_model="linear", variogram_parameters=[1.0 / u, 0.5], nlags=task["nlags"], weight=bool(h(cid, 3) % 2))
        if task["geo"]:
            kw["coordinates_type"] = "geographic"
            ani = {}
        cls = {"ok": "OrdinaryKriging", "uk": "UniversalKriging", "ok3d": "OrdinaryKriging3D", "uk3d": "UniversalKriging3D"}[task["cls"]]
        label = f"{cls} nlags={task['nlags']} {P} {zs.tolist()} {ani}"
        for how in ("new", "update"):
            try:
                if how == "new":
                    o = getattr(pykrige, cls)(*A.T, zs, **kw, **ani)
                else:
                    o = getattr(pykrige, cls)(*A.T, zs, **dict(kw, nlags=(4, 6, 9)[h(cid, 5) % 3]))
                    o.update_variogram_model(kw["variogram_model"], kw["variogram_parameters"], nlags=kw["nlags"], weight=kw["weight"], **ani)
                lags, gam = np.asarray(o.lags, dtype=float), np.asarray(o.semivariance, dtype=float)
            except Exception as e:
                out["bad"].append(f"{how} {type(e).__name__}: {e} {label}"[:500])
                continue
            out["seen"] += len(lags)
            def fits(w):
                return (len(w) == len(lags) == len(gam)
                        and all(abs(a * u - b) <= 1e-7 * (a * u + u) for (a, _), b in zip(w, lags))
                        and all(abs(a * g * g - b) <= 1e-7 * g * g * (1 + a) for (_, a), b in zip(w, gam)))
            if not any(fits(w) for w in want):
                out["bad"].append(f"{how}: lags {lags.tolist()} semivariances {gam.tolist()}, exact {[(round(a * u, 9), round(b * g * g, 9)) for a, b in want[0]]}: {label}"[:900])
            if hasattr(o, "get_variogram_points"):
                vl, vg = o.get_variogram_points()
                s = np.asarray(o.variogram_function(o.variogram_model_parameters, lags))
                if not (np.allclose(vl, lags) and np.allclose(vg, s)):
                    out["bad"].append(f"{how}: get_variogram_points does not show the model at the lags: {label}"[:500])
    out["bad"] = out["bad"][:4]
    return out


def check(ck, count):
    from vlib import pool, tlc

    def part(lo, hi):
        return tlc.run("Binning", tlc.cfg(constants={"Lo": lo, "Hi": hi, "Seed": ck.seed}, invariants=["EveryPairOnce", "Ordered", "Ends", "Emit"], view="View"), workers=2, timeout=3000)

    from concurrent.futures import ThreadPoolExecutor

    step = -(-count // 6)
    with ThreadPoolExecutor(6) as ex:
        parts = list(ex.map(lambda s: part(1 + s * step, min(count, (s + 1) * step)), range(-(-count // step))))
    tasks = [t for r in parts for t in r.lines]
    ck.count("states", sum(r.distinct for r in parts))
    ck.count("transitions", sum(r.states for r in parts))
    for t, r in zip(tasks, pool.run("binning", "replay", tasks)):
        for b in [r["crash"]] if "crash" in r else r["bad"][:1]:
            ck.violation(f"[binning] data set {t['no']}: {b}"[:900], {"suite": "binning", "func": "replay", "task": t})
        if "crash" not in r:
            ck.count("data_sets")
            ck.count("data_sets_skipped_near_a_class_border", r.get("skipped", 0))
            ck.count("traces_validated_against_impl", 1 - r.get("skipped", 0))
            ck.count("lags_compared", r["seen"])
    ck.sample(tasks[len(tasks) // 2])
