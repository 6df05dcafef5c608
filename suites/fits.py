"""Records automatic variogram fits for spec/FitTrace.tla."""
import json
import math
import os
import random

M = 1000000
KINDS = ("linear", "power", "gaussian", "spherical", "exponential", "hole-effect")


def model(kind, p, x):
    import numpy as np

    x = np.asarray(x, dtype=float)
    if kind == "linear":
        return p[0] * x + p[1]
    if kind == "power":
        return p[0] * x ** p[1] + p[2]
    if kind == "gaussian":
        return p[0] * (1 - np.exp(-((x / (p[1] * 4 / 7)) ** 2))) + p[2]
    if kind == "exponential":
        return p[0] * (1 - np.exp(-3 * x / p[1])) + p[2]
    if kind == "spherical":
        t = np.minimum(x / p[1], 1.0)
        return p[0] * (1.5 * t - 0.5 * t**3) + p[2]
    return p[0] * (1 - (1 - 3 * x / p[1]) * np.exp(-3 * x / p[1])) + p[2]


def mic(v):
    # negative values stay negative
    return int(math.floor(float(v) * M)) if v < 0 else int(round(float(v) * M))


def weights(x):
    import numpy as np

    # logistic, half way at 70% of the range of lags, 10% and 90% one tenth of the range away
    rng = x.max() - x.min()
    k = math.log(9.0) / (0.1 * rng)
    w = 1.0 / (1.0 + np.exp(k * (x - (x.min() + 0.7 * rng))))
    return w / w.sum()


def record(task):
    """one data set, one setting"""
    import numpy as np
    import pykrige

    r = random.Random(f"fit/{task['id']}/{task['seed']}")
    kind = r.choice(KINDS)
    cls = r.choice(("OrdinaryKriging", "OrdinaryKriging", "UniversalKriging", "OrdinaryKriging3D", "UniversalKriging3D"))
    three = cls.endswith("3D")
    geo = cls == "OrdinaryKriging" and r.random() < 0.25
    n = r.randint(5, 22)
    ext = r.choice((2.0, 10.0, 30.0))
    sd = r.choice((0.3, 1.0, 2.0, 3.0))
    g = np.random.default_rng(r.randrange(1 << 30))
    P = g.random((n, 3 if three else 2)) * ext
    if geo:
        P = np.column_stack([g.random(n) * 60 - 30, g.random(n) * 60 - 30])
    Z = g.normal(size=n)
    trend = r.choice((0.0, 0.0, 2.0, 4.0))
    if kind == "power" and r.random() < 0.4:
        # hardly anything but a trend: exponents near two
        trend = r.choice((8.0, 20.0))
    Z = Z + trend * P[:, 0] / max(1e-9, np.ptp(P[:, 0]))
    if r.random() < 0.3:
        Z[0] += 4.0  # an outlier
    weight = r.random() < 0.45
    # units of the semivariance and of the coordinates, as powers of ten
    U = r.choice((0, 0, 0, 2, 2, 2, -4, -6, -12))
    V = 0 if geo or kind == "power" else r.choice((0, 0, -3, 3))
    Z = (Z / Z.std() * sd + r.choice((0.0, 5.0))) * 10.0 ** (U / 2)
    if not geo:
        P = P * 10.0**V
    if "data" in task:
        d = task["data"]
        kind, cls, three, geo, weight, U, V = d["kind"], "OrdinaryKriging", False, False, False, d["U"], 0
        P, Z = np.array(d["P"], dtype=float), np.array(d["Z"], dtype=float)
        n = len(Z)
    U, V = 10.0**U, 10.0**V
    nl = r.choice((4, 5, 6, 6, 8, 10))
    kw = dict(variogram_model=kind, nlags=nl, weight=weight)
    if r.random() < 0.4 and nl == 6 or "data" in task:
        kw.pop("nlags")
    ani = {}
    if "data" not in task and not geo and r.random() < 0.4:
        ani = (dict(anisotropy_scaling=2.0, anisotropy_angle=30.0) if not three
               else dict(anisotropy_scaling_y=2.0, anisotropy_scaling_z=0.5, anisotropy_angle_z=30.0))
    extra = {"coordinates_type": "geographic"} if geo else {}
    C = getattr(pykrige, cls)
    o = C(*P.T, Z, **kw, **ani, **extra)
    x, y = np.array(o.lags, dtype=float) / V, np.array(o.semivariance, dtype=float) / U
    if len(x) < 3 or np.ptp(x) < 1e-3 or np.ptp(y) < 1e-3:
        return {"skip": 1}

    def units(ob):
        q = [float(v) for v in ob.variogram_model_parameters]
        if kind == "linear":
            return [q[0] * V / U, q[1] / U]
        if kind == "power":
            return [q[0] / U, q[1], q[2] / U]
        return [q[0] / U, q[1] / V, q[2] / U]

    p = units(o)
    rec = {"id": task["id"], "kind": kind, "cls": cls, "weight": weight, "x": [mic(v) for v in x], "y": [mic(v) for v in y],
           "p": [mic(v) for v in p], "one": 0 if U < 1e-3 else int(round(M / U)), "wt": [], "runs": [], "cands": []}
    w = weights(x)
    if weight:
        rec["wt"] = [int(round(v * 10000)) for v in w]
    # the same data and settings along other ways
    def say(ob):
        rec["runs"].append([mic(v) for v in units(ob)])
    say(C(*P.T, Z, **kw, **ani, **extra))
    o2 = C(*P.T, Z, variogram_model=r.choice(KINDS), variogram_parameters=None, nlags=r.choice((3, 7)), weight=not weight, **extra)
    q = [c[:3] + 0.1 for c in P.T]
    if r.random() < 0.5:
        o2.execute("points", *q)
    o2.update_variogram_model(kind, **{k: v for k, v in kw.items() if k != "variogram_model"}, **ani)
    say(o2)
    o.update_variogram_model(r.choice(KINDS), **ani)
    o.update_variogram_model(kind, **{k: v for k, v in kw.items() if k != "variogram_model"}, **ani)
    say(o)
    if not geo and not three and not ani:
        other = "UniversalKriging" if cls == "OrdinaryKriging" else "OrdinaryKriging"
        say(getattr(pykrige, other)(*P.T, Z, **kw))
        say(pykrige.OrdinaryKriging3D(*P.T, np.zeros(n), Z, **kw))
    # competitors
    lo, hi = {"linear": ([0, 0], [np.inf, y.max()]), "power": ([0, 1e-3, 0], [np.inf, 1.999, y.max()])}.get(
        kind, ([0, 0, 0], [10 * y.max(), x.max(), y.max()]))
    slope = (y.max() - y.min()) / (x.max() - x.min())
    start = {"linear": [slope, y.min()], "power": [slope, 1.1, y.min()]}.get(kind, [y.max() - y.min(), x.max() / 4, y.min()])
    cands = [("fit", p), ("start", start)]
    unit = [abs(p[0]), y.max()] if kind == "linear" else [abs(p[0]), 1.0, y.max()] if kind == "power" else [y.max(), x.max(), y.max()]
    for i in range(len(p)):
        if kind == "spherical" and i == 1 and p[1] < x.min():
            continue  # every lag is on the plateau: the objective is flat
        for f in (0.97, 1.03, 0.92, 1.08):
            q = list(p)
            q[i] *= f
            cands.append(("near", q))
        for f in (-0.008, 0.008):
            q = list(p)
            q[i] += f * unit[i]
            cands.append(("near", q))
    if len(p) == 3:
        for f in (-0.008, 0.008):
            q = list(p)
            q[0] += f * unit[0]
            q[2] -= f * unit[2]
            cands.append(("near", q))
    if kind == "power":
        # other exponents through the same value at the largest lag, or the one in the middle
        for f in (-0.1, -0.04, 0.04, 0.1):
            for at in (x.max(), float(x[len(x) // 2])):
                cands.append(("ridge", [p[0] * at**-f, p[1] + f, p[2]]))
    for role, q in cands:
        if role in ("near", "ridge") and any(v < a or v > b for v, a, b in zip(q, lo, hi)):
            continue
        if kind not in ("linear", "power") and q[1] < 1e-9:
            continue
        m = model(kind, q, x)
        if not np.all(np.isfinite(m)) or np.abs(m).max() > 1000:
            continue
        mi = [mic(v) for v in m]
        s = []
        for i, (a, b) in enumerate(zip(mi, rec["y"])):
            d = abs(a - b)
            if weight:
                d = d // 1000 * rec["wt"][i] // 10 + d % 1000 * rec["wt"][i] // 10000
            s.append(math.isqrt(rec["one"] ** 2 + d * d))
        rec["cands"].append({"role": role, "p": [mic(v) for v in q], "m": mi, "s": s})
    if not rec["cands"] or rec["cands"][0]["role"] != "fit":
        rec["cands"] = []
    return rec


# see known_findings.txt
KNOWN = [{"id": -2, "seed": 1, "key": "slow convergence, semivariances of 1e5",
          "data": {"kind": "spherical", "U": 4, "P": [[9, 0], [1, 3], [7, 5], [4, 7], [0, 4]], "Z": [100, 400, 900, 300, 600]}}]


def judge(recs, par=8):
    from concurrent.futures import ThreadPoolExecutor

    from vlib import build, tlc

    def one(part):
        path = os.path.join(build.scratch(), f"fit-{os.getpid()}-{part[0]['id']}.json")
        with open(path, "w") as f:
            json.dump(part, f)
        res = tlc.run("FitTrace", tlc.cfg(constants={"File": path}, view="View"), workers=1, heap="1g", timeout=3000)
        os.remove(path)
        return res

    parts = [p for p in (recs[k::par] for k in range(par)) if p]
    with ThreadPoolExecutor(par) as ex:
        return list(ex.map(one, parts))


def check(ck, count):
    from vlib import build, pool

    tasks = KNOWN + [{"id": i, "seed": ck.seed} for i in range(count)]
    keys = {t["id"]: t["key"] for t in KNOWN}
    out = pool.run("fits", "record", tasks)
    recs = []
    for t, r in zip(tasks, out):
        if "crash" in r:
            ck.violation(f"[fit] data set {t['id']}: {r['crash']}"[:600], {"suite": "fits", "func": "replay", "task": t})
        elif "skip" in r:
            ck.count("degenerate_data_sets")
        else:
            recs.append(r)
    # a record whose parameters were shifted must be rejected
    ctl = json.loads(json.dumps(next(r for r in recs if r["cands"])))
    ctl["id"] = -1
    ctl["runs"][0][0] += 5000000
    results = judge(recs + [ctl])
    fails, done = {}, set()
    for res in results:
        ck.count("states", res.distinct)
        ck.count("transitions", res.states)
        for l in res.lines:
            if "machinery" in l:
                raise build.Machinery("FitTrace refuses a record: " + json.dumps(l))
            if "done" in l:
                done.add(l["id"])
                ck.count("competitors_weighed", l["done"])
            else:
                fails.setdefault(l["id"], []).append(l)
    if len(done) != len(recs) + 1:
        raise build.Machinery("TLC did not judge every record")
    if -1 not in fails:
        raise build.Machinery("an altered record was accepted")
    for r in recs:
        ck.count("fits_judged")
        ck.count("traces_validated_against_impl")
        if r["id"] in fails:
            f = fails[r["id"]][0]
            ck.violation(f"[fit] data set {r['id']}: {f['fails']} {r['kind']} {r['cls']} weight={r['weight']} parameters {r['p']} runs {r['runs']} beaten by {f.get('by')} costs {f.get('costs')}"[:800],
                         {"suite": "fits", "func": "replay", "task": next(t for t in tasks if t["id"] == r["id"])}, key=keys.get(r["id"]))
    if -2 not in done:
        raise build.Machinery("the known finding was not looked at")
    r = recs[len(recs) // 2]
    ck.sample({k: r[k] for k in ("kind", "weight", "x", "y", "p", "runs")})


def replay(task):
    r = record(task)
    if "skip" in r:
        return {"bad": []}
    return {"bad": [l for res in judge([r], 1) for l in res.lines if "fails" in l]}
