"""Conformance with spec/Large.tla: exact answers for many data."""
import math
from fractions import Fraction

from .exact import ANGLES, h


def values(an):
    """the answer's terms put together"""
    e = [Fraction(*f) for f in an["e"]]
    v = [Fraction(*f) for f in an["v"]]
    est = e[0] + (e[1] * e[2] if len(e) > 1 else 0)
    var = v[0] + (v[1] * v[2] ** 2 if len(v) > 1 else 0)
    return float(est), float(var)


class Layout:
    """where the positions of a scenario lie in the coordinates of the object"""

    def __init__(self, sc, way):
        self.sc, self.cid = sc, sc["id"] * 7 + way
        c = self.cid
        self.three = sc["cls"].endswith("3d")
        self.geo = sc["cls"] == "ok" and h(c, 1) % 4 == 0 and sc["kind"] != "drift"
        self.u = (1.0, 0.07, 100.0, 2.0**-10, 3.0)[h(c, 2) % 5]
        dim = 3 if self.three else 2
        self.off = [(0.0, 0.0, 3e4, -7e3)[h(c, 3, t) % 4] * self.u for t in range(3)]
        self.lattice = sc["kind"] == "cluster" and not sc["k"] and h(c, 4) % 2
        self.side = 1 + h(c, 5) % 12
        self.dir = [0.0] * dim
        self.dir[h(c, 6) % dim] = 1.0
        self.axis = h(c, 6) % dim
        if h(c, 7) % 3 == 0:
            a, b = ((0.6, 0.8), (0.8, -0.6))[h(c, 8) % 2]
            self.dir[self.axis], self.dir[(self.axis + 1) % dim] = a, b
            self.axis = None
        if self.geo:
            self.axis = 0
            self.off = [0.0, 0.0]
            reach = max(abs(sc["pos"][-1] - sc["pos"][0]), 1) + 20
            self.u = (0.5 if reach < 300 else 0.05) if sc["kind"] == "line" else 0.02 if reach > 300 else 0.3
            self.lattice = False
        self.ang, self.sca = [0.0] * (3 if self.three else 1), [1.0] * (2 if self.three else 1)
        if not self.geo and h(c, 9) % 2:
            self.sca = [(0.5, 2.0, 1.5, 3.0)[h(c, 10, t) % 4] for t in range(len(self.sca))]
            if h(c, 11) % 2:
                self.ang = [math.degrees(math.atan2(*reversed(ANGLES[h(c, 12, t) % 9]))) for t in range(len(self.ang))]
                self.axis = None
        self.inverse()

    def inverse(self):
        import numpy as np

        r = [math.radians(a) for a in self.ang]
        if self.three:
            cx, sx, cy, sy, cz, sz = (f(a) for a in r for f in (math.cos, math.sin))
            X = np.array([[1, 0, 0], [0, cx, sx], [0, -sx, cx]])
            Y = np.array([[cy, 0, -sy], [0, 1, 0], [sy, 0, cy]])
            Z = np.array([[cz, sz, 0], [-sz, cz, 0], [0, 0, 1]])
            M = np.diag([1.0] + self.sca) @ Z @ Y @ X
        else:
            c, s = math.cos(r[0]), math.sin(r[0])
            M = np.diag([1.0] + self.sca) @ np.array([[c, s], [-s, c]])
        self.M = np.linalg.inv(M).tolist()

    def place(self, x, home):
        """position x along the line, belonging to the place at home (number, position)"""
        if self.geo:
            d = x * self.u
            return [d - 60.0 if h(self.cid, 20) % 2 else d, 0.0]
        dim = 3 if self.three else 2
        p = [x * d for d in self.dir]
        if self.lattice:
            i, x0 = home
            cell = [i % self.side, i // self.side % (self.side if dim == 3 else 10**6), i // self.side**2 if dim == 3 else 0]
            p = [20.0 * cell[t] + (x - x0) * self.dir[t] for t in range(dim)]
        return [sum(self.M[t][j] * p[j] for j in range(dim)) * self.u + self.off[t] for t in range(dim)]


def replay(task):
    import numpy as np
    import pykrige

    sc, rq, an = task["sc"], task["rq"], task["an"]
    out = {"bad": [], "points": 0, "runs": 0}
    n = sc["n"]
    three = sc["cls"].endswith("3d")
    cls = getattr(pykrige, {"ok": "OrdinaryKriging", "uk": "UniversalKriging", "ok3d": "OrdinaryKriging3D", "uk3d": "UniversalKriging3D"}[sc["cls"]])
    if all(a["tie"] for a in an):
        return dict(out, skipped=1)
    home = {}
    for i in range(n):
        if sc["kind"] == "cluster":
            home[sc["at"][i]] = (sc["at"][i], sc["pos"][i] - sc["off"][i])
    for way in range(2):
        L = Layout(sc, way)
        c, u = L.cid, L.u
        P = np.array([L.place(sc["pos"][i], home.get(sc["at"][i]) if sc["at"] else None) for i in range(n)])
        Q = np.array([L.place(q["x"], home.get(q["at"])) for q in rq])
        Z = np.array(sc["z"], dtype=float)
        F = np.array(sc["f"], dtype=float)
        FQ = np.array([a["fq"] for a in an], dtype=float)
        perm = np.arange(n)
        if h(c, 30) % 3:
            perm = np.random.default_rng(c).permutation(n) if h(c, 30) % 3 == 1 else perm[::-1]
        P, Z = P[perm], Z[perm]
        kw = {"exact_values": sc["exact"]}
        if sc["kind"] == "cluster":
            kw.update(variogram_model="spherical", variogram_parameters=[128.0 + sc["nug"], 4 * u, sc["nug"]])
        else:
            kw.update(variogram_model="linear", variogram_parameters=[sc["a"] / u, 0.0])
        if L.geo:
            kw["coordinates_type"] = "geographic"
        elif three:
            kw.update(anisotropy_scaling_y=L.sca[0], anisotropy_scaling_z=L.sca[1],
                      anisotropy_angle_x=L.ang[0], anisotropy_angle_y=L.ang[1], anisotropy_angle_z=L.ang[2])
        else:
            kw.update(anisotropy_scaling=L.sca[0], anisotropy_angle=L.ang[0])
        fun = False
        if sc["kind"] == "drift":
            F = F[perm]
            fun = h(c, 31) % 3 == 0 and not any(L.ang) and not any(s != 1 for s in L.sca)
            if fun:
                # a functional drift looks its values up
                known = {}
                for p, f in list(zip(P.tolist(), F.tolist())) + list(zip(Q.tolist(), FQ.tolist())):
                    known[tuple(round(v / u * 8) for v in p)] = f

                def term(*xs):
                    shape = np.broadcast(*xs).shape
                    cols = [np.broadcast_to(np.asarray(x, dtype=float), shape).ravel() for x in xs]
                    return np.array([known.get(tuple(round(v / u * 8) for v in p), 0.0) for p in zip(*cols)]).reshape(shape)

                kw.update(drift_terms=["functional"], functional_drift=[term])
            else:
                kw.update(drift_terms=["specified"], specified_drift=[F])
        pseudo = h(c, 32) % 8
        if pseudo < 2 and n < 160:
            kw.update(pseudo_inv=True, pseudo_inv_type=("pinv", "pinvh")[pseudo])
        label = f"{sc['kind']} {sc['cls']} n={n} k={sc['k']}" + (" geographic" if L.geo else "") + (" lattice" if L.lattice else "") + (" functional" if fun else "")
        try:
            obj = cls(*P.T, Z, **kw)
        except Exception as e:
            out["bad"].append(f"{label}: {type(e).__name__}: {e}"[:300])
            continue
        expect = [values(a) if not a["tie"] else None for a in an]
        zs = max(1.0, float(np.abs(Z).max()))
        gs = 192.0 if sc["kind"] == "cluster" else max(1.0, 2.0 * sc["a"] * (sc["pos"][-1] - sc["pos"][0]) / n)
        cc = sc["cls"] == "ok"
        for backend in (["loop"] if sc["k"] else ["vectorized", "loop"]) + (["C"] if cc else []):
            # the request: the points alone, among many others, or a grid through them
            style = h(c, 33, len(backend)) % 4
            grid = style == 3 and L.axis is not None and not fun and not L.lattice
            args = {"backend": backend}
            if sc["k"]:
                args["n_closest_points"] = sc["k"]
            order = np.arange(len(rq))
            QQ, FF = Q, FQ
            if style in (1, 2):
                m = (40, (700, 700, 3000)[h(c, 35) % 3])[style - 1] if backend != "loop" or n < 100 else 40
                fill = np.random.default_rng(c + 1).random((m, Q.shape[1])) * 30 * u + Q[0]
                if L.geo:
                    fill[:, 1] = np.clip(fill[:, 1], -80, 80)
                QQ, FF = np.concatenate([fill, Q]), np.concatenate([np.zeros(m), FQ])
                mix = np.random.default_rng(c + 2).permutation(len(QQ))
                QQ, FF = QQ[mix], FF[mix]
                order = np.argsort(mix)[m:]
            try:
                if grid:
                    dim = Q.shape[1]
                    axes = []
                    for t in range(dim):
                        axes.append(Q[:, t] if t == L.axis else np.array([Q[0, t], Q[0, t] + 2 * u] if t == (L.axis + 1) % dim else [Q[0, t]]))
                    shape = tuple(len(a) for a in reversed(axes))
                    take = [0] * dim
                    take[dim - 1 - L.axis] = slice(None)
                    take = tuple(take)
                    if kw.get("specified_drift") is not None:
                        a = np.zeros(shape)
                        a[take] = FQ
                        args["specified_drift_arrays"] = [a]
                    gone = np.zeros(len(rq), bool)
                    if h(c, 34) % 2:
                        mask = np.ones(shape, bool)
                        gone[:: 3] = True
                        mask[take] = gone
                        e, v = obj.execute("masked", *axes, mask=mask, **args)
                    else:
                        e, v = obj.execute("grid", *axes, **args)
                    if e.shape != shape:
                        out["bad"].append(f"{label} {backend} grid: shape {e.shape} instead of {shape}")
                        continue
                    e, v = np.ma.getdata(e)[take], np.ma.getdata(v)[take]
                else:
                    gone = np.zeros(len(rq), bool)
                    if kw.get("specified_drift") is not None:
                        args["specified_drift_arrays"] = [FF]
                    e, v = obj.execute("points", *QQ.T, **args)
                    e, v = np.asarray(e)[order], np.asarray(v)[order]
            except Exception as ex:
                out["bad"].append(f"{label} {backend}: {type(ex).__name__}: {ex}"[:300])
                continue
            out["runs"] += 1
            for t, want in enumerate(expect):
                if want is None or gone[t]:
                    continue
                out["points"] += 1
                we, wv = want
                if not abs(e[t] - we) <= 1e-7 * (zs + abs(we)):
                    out["bad"].append(f"{label} {backend}: estimate at {rq[t]['x']} is {float(e[t])!r}, exact {we!r}")
                if not abs(v[t] - wv) <= 1e-7 * (gs + abs(wv)):
                    out["bad"].append(f"{label} {backend}: variance at {rq[t]['x']} is {float(v[t])!r}, exact {wv!r}")
    out["bad"] = out["bad"][:4]
    return out


def check(ck, focus, count):
    from vlib import pool, tlc

    res = tlc.run("Large", tlc.cfg(constants={"Lo": 1, "Hi": count, "Seed": ck.seed, "Focus": focus}, invariants=["Kriged", "Agrees", "Emit"]), timeout=3000)
    ck.count("states", res.distinct)
    ck.count("transitions", res.states)
    tasks = sorted(res.lines, key=lambda t: t["sc"]["id"])
    for t, r in zip(tasks, pool.run("large", "replay", tasks)):
        for b in [r["crash"]] if "crash" in r else r["bad"][:1]:
            ck.violation(f"[large {focus}] scenario {t['sc']['id']}: {b}"[:800], {"suite": "large", "func": "replay", "task": t})
        if "crash" not in r:
            ck.count("large_scenarios_" + focus)
            ck.count("traces_validated_against_impl", 1 - r.get("skipped", 0))
            ck.count("requests_replayed", r["runs"])
            ck.count("answers_compared", r["points"])
            ck.count("large_scenarios_without_an_answer", r.get("skipped", 0))
    if tasks:
        t = tasks[0]
        ck.sample({"large scenario": {k: v for k, v in t["sc"].items() if not isinstance(v, list)}, "request": t["rq"], "answers": t["an"][:3]})
