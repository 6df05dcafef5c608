"""Conformance of the variogram models with spec/VarioTerm.tla."""
import math
from decimal import Decimal, getcontext

getcontext().prec = 40


def value(t):
    """the exact value of a term, to 40 digits"""
    q = lambda p: Decimal(p[0]) / Decimal(p[1])
    v = q(t["const"]) + q(t["ecoef"]) * (-q(t["earg"])).exp()
    if t["pcoef"][0]:
        v += q(t["pcoef"]) * q(t["pbase"]) ** (Decimal(t["pexp"]) / 10)
    return v


def params(task, u, g):
    """parameters as the code stores them: partial sill, range, nugget"""
    k, a, n, e = task["kind"], task["a"], task["n"], task["e"] / 10.0
    if k == "linear":
        return [a * g / u, n * g]
    if k == "power":
        return [a * g / u**e, e, n * g]
    return [a * g, u, n * g]


def replay(task):
    """one model with its parameters, all distances"""
    import numpy as np
    import pykrige
    from pykrige import variogram_models as vm

    bad, seen = [], 0
    kind = task["kind"]
    js = [p["j"] for p in task["pts"]]
    exact = [value(p["term"]) for p in task["pts"]]
    fn = getattr(vm, kind.replace("-", "_") + "_variogram_model")
    scale = task["a"] + task["n"]
    for u, g in ((1.0, 1.0), (8.0, 1.0), (512.0, 4.0), (1e-4, 1e6), (3e6, 1e-5)):
        m = params(task, u, g)
        d = np.array([j * u / 8.0 for j in js])
        want = np.array([float(v) for v in exact]) * g
        tol = 2e-12 * (np.abs(want) + scale * g)
        forms = {"array": (m, d), "tuple parameters": (tuple(m), d), "array parameters": (np.array(m), d),
                 "matrix": (m, np.vstack([d, d[::-1]]).T), "strided": (m, np.repeat(d, 2)[::2])}
        # the many distances of a large system
        big = -(-(260 if u == 8.0 else 1100 if u == 512.0 else 40000 if g == 1e6 else 60) // len(d))
        forms["large matrix"] = (m, np.vstack([d] * big))
        forms["the large matrix again"] = forms["large matrix"]
        if u == 8.0 and all(float(v).is_integer() for v in d):
            forms["integers"] = (m, d.astype(int))
            if all(float(v).is_integer() for v in m):
                forms["integer parameters"] = ([int(v) for v in m], d)
        for name, (mm, dd) in forms.items():
            keep = np.array(dd, copy=True)
            try:
                got = np.asarray(fn(mm, dd))
            except Exception as e:
                bad.append(f"{kind} {m}: {name}: {type(e).__name__}: {e}"[:200])
                continue
            w, t = (np.vstack([want, want[::-1]]).T, np.vstack([tol, tol[::-1]]).T) if name == "matrix" else (want, tol)
            if "large" in name:
                w, t = np.vstack([want] * big), np.vstack([tol] * big)
            seen += w.size
            if got.shape != w.shape or not (np.abs(got - w) <= t).all():
                i = 0 if got.shape != w.shape else int(np.argmax(np.abs(got - w) - t))
                bad.append(f"{kind} {m}: {name}: {got.ravel()[i]!r} instead of {w.ravel()[i]!r} at distance {np.asarray(dd).ravel()[i]!r}")
            if np.shares_memory(got, dd):
                bad.append(f"{kind} {m}: {name}: the distances passed are returned")
            if not np.array_equal(np.asarray(dd), keep):
                bad.append(f"{kind} {m}: {name}: distances passed were changed")
        for i in (0, len(js) // 2, len(js) - 1):
            seen += 1
            got = float(fn(m, float(d[i])))
            if not abs(got - want[i]) <= tol[i]:
                bad.append(f"{kind} {m}: scalar: {got!r} instead of {want[i]!r} at {d[i]!r}")
    # the models as the kriging classes hold them, and the compiled ones
    for u, g in ((1.0, 1.0), (2e3, 1e-3), (0.02, 50.0)):
        m = params(task, u, g)
        if kind == "power" and task["e"] == 20:
            continue  # outside the admissible exponents: the system is singular
        if kind in ("linear", "power"):
            given = list(m)
        else:
            given = [m[0] + m[2], m[1], m[2]]
        if task["a"] + task["n"] == 0 or task["a"] == 0:
            continue
        G = {p["j"]: float(v) * g for p, v in zip(task["pts"], exact)}
        D = 2 * u / 8.0
        gD = G[2]
        X, Y, Z = np.array([-D / 2, D / 2]), np.array([0.0, 0.0]), np.array([0.0, 1.0])
        qj = [j for j in js if j >= 1 and j != 400]
        qx = np.zeros(len(qj))
        qy = np.array([math.sqrt(max(0.0, (j * u / 8.0) ** 2 - (D / 2) ** 2)) for j in qj])
        for cls in ("OrdinaryKriging", "UniversalKriging", "OrdinaryKriging3D", "UniversalKriging3D"):
            three = cls.endswith("3D")
            co = [X, Y, np.zeros(2)] if three else [X, Y]
            q = [qx, qy, np.zeros(len(qj))] if three else [qx, qy]
            try:
                o = getattr(pykrige, cls)(*co, Z, variogram_model=kind, variogram_parameters=given, exact_values=False)
            except Exception as e:
                bad.append(f"{cls} {kind} {given}: {type(e).__name__}: {e}"[:200])
                continue
            v = np.asarray(o.variogram_function(o.variogram_model_parameters, np.array([j * u / 8.0 for j in js])))
            seen += len(js)
            w = np.array([G[j] for j in js])
            if not (np.abs(v - w) <= 1e-10 * (np.abs(w) + scale * g)).all():
                bad.append(f"{cls} {kind} {given}: variogram_function gives {v.tolist()} instead of {w.tolist()}"[:400])
            if hasattr(o, "get_variogram_points"):
                lag, gam = o.get_variogram_points()
                seen += 1
                if not np.allclose(np.asarray(lag), [D], rtol=1e-9) or not np.allclose(gam, [gD], rtol=1e-9):
                    bad.append(f"{cls} {kind} {given}: get_variogram_points {lag} {gam} instead of {D} {gD}"[:300])
            bs = ["vectorized", "loop"] + (["C", "C2", "loop2"] if cls == "OrdinaryKriging" and kind != "hole-effect" else [])
            for b in bs:
                kw = {"n_closest_points": 2} if b.endswith("2") else {}
                try:
                    z, s = o.execute("points", *q, backend=b.rstrip("2"), **kw)
                    z0, s0 = o.execute("points", *[c[:1] for c in co], backend=b.rstrip("2"), **kw)
                except Exception as e:
                    bad.append(f"{cls} {kind} {given} {b}: {type(e).__name__}: {e}"[:200])
                    continue
                # two data, request on the bisector: 2 g(d) - g(D)/2
                want = np.array([2 * G[j] - gD / 2 for j in qj])
                seen += len(qj) + 1
                if not (np.abs(s - want) <= 1e-8 * (np.abs(want) + scale * g)).all():
                    i = int(np.argmax(np.abs(s - want)))
                    bad.append(f"{cls} {kind} {given} {b}: variance {s[i]!r} instead of {want[i]!r} at distance {qj[i]}/8 of the range")
                if not (np.abs(z - 0.5) <= 1e-8).all():
                    bad.append(f"{cls} {kind} {given} {b}: estimate {z.tolist()} on the bisector instead of 0.5"[:200])
                # at a datum with the nugget kept: 2 n - n^2 / (2 g(D))
                n = G[0]
                w0 = 2 * n - n * n / (2 * gD)
                if not abs(s0[0] - w0) <= 1e-8 * (abs(w0) + scale * g):
                    bad.append(f"{cls} {kind} {given} {b}: variance {s0[0]!r} instead of {w0!r} at a datum")
    return {"bad": bad[:6], "seen": seen}


def check(ck):
    from vlib import pool, tlc

    res = tlc.run("VarioTerm", tlc.cfg(invariants=["NuggetAtZero", "Plateau", "Continuous", "NinetyFive", "Approach", "Emit"],
                                       properties=["Monotone"]))
    groups = {}
    for r in res.lines:
        groups.setdefault((r["kind"], r["a"], r["n"], r["e"]), []).append({"j": r["j"], "term": r["term"]})
    tasks = [{"kind": k, "a": a, "n": n, "e": e, "pts": sorted(p, key=lambda t: t["j"])} for (k, a, n, e), p in sorted(groups.items())]
    ck.count("states", res.distinct)
    ck.count("transitions", res.states)
    for t, r in zip(tasks, pool.run("vario", "replay", tasks)):
        label = {k: t[k] for k in ("kind", "a", "n", "e")}
        for b in [r["crash"]] if "crash" in r else r["bad"][:1]:
            ck.violation(f"[variogram terms] {b} {label}"[:700], {"suite": "vario", "func": "replay", "task": t})
        if "crash" not in r:
            ck.count("models_with_parameters")
            ck.count("traces_validated_against_impl")
            ck.count("values_compared", r["seen"])
    ck.sample({"model": tasks[3]["kind"], "terms": tasks[3]["pts"][:3]})
