"""Walks of spec/Lifecycle.tla on the real classes.

TLC checks the life of kriging objects (and that every planted fault is
found), and emits walks: constructions, updates, requests, rejected calls,
calls broken off by user-supplied functions, copies.  Each walk is replayed;
after every step every object must answer and report like a fresh one with
the settings the specification predicts for it.
"""
import copy
import json
import pickle
import random
from concurrent.futures import ThreadPoolExecutor

from vlib import clean

FAULTS = ("guard", "wells", "lags", "order", "refit", "stat", "early", "halfway", "shared")
SCALE, ANGLE = (1.0, 2.0, 0.5), (0.0, 35.0, -50.0)
TURN, PULL = ((1.0, 3.0, 0.4), (0.0, 0.3, -0.25)), ((1.0, 1.015, 0.99), (0.0, 35.0, -50.0))


class Broken(Exception):
    pass


class Fn:
    """a user-supplied function that can be made to fail at its n-th call"""

    def __init__(self, what):
        self.what, self.calls, self.limit = what, 0, 0

    def __call__(self, *a):
        import numpy as np

        self.calls += 1
        if self.limit and self.calls >= self.limit:
            raise Broken("user function")
        if self.what == "vario":
            m, d = a
            return m[0] * (1 - np.exp(-np.asarray(d) / m[1])) + m[2]
        if self.what == "vario2":
            m, d = a
            return m[0] * np.asarray(d) / (np.asarray(d) + m[1]) + m[2]
        return a[0] * a[1] / 5.0

    def arm(self, n):
        self.calls, self.limit = 0, n

    def disarm(self):
        self.calls = self.limit = 0

    def __eq__(self, other):
        return type(self) is type(other) and self.what == other.what

    __hash__ = object.__hash__


class World:
    def __init__(self, walk):
        import numpy as np
        import pykrige

        r = random.Random(f"life/{walk['id']}/{walk['seed']}")
        self.r, self.cls = r, walk["cls"]
        # anisotropies far from or close to each other
        self.scale, self.angle = random.Random(f"ani/{walk['id']}/{walk['seed']}").choice(((SCALE, ANGLE), (SCALE, ANGLE), TURN, PULL))
        c = walk["cls"]
        self.three = c.endswith("3d")
        self.K = {"ok": pykrige.OrdinaryKriging, "geo": pykrige.OrdinaryKriging, "uk": pykrige.UniversalKriging,
                  "ok3d": pykrige.OrdinaryKriging3D, "uk3d": pykrige.UniversalKriging3D}[c]
        self.dim = 3 if self.three else 2
        n = {"ok": 9, "geo": 9, "uk": 15, "ok3d": 10, "uk3d": 15}[c]
        g = np.random.default_rng(walk["id"] * 7 + walk["seed"])
        # jittered cells: no two points close together
        side = 4 if self.dim == 2 else 3
        cells = r.sample([[i, j, k] for i in range(side) for j in range(side) for k in range(side if self.three else 1)], n)
        P = (np.array(cells)[:, : self.dim] + 0.3 * g.random((n, self.dim))) * 2.5
        if c == "geo":
            P = P * [30.0, 12.0] - [170.0, 55.0]
        self.P, self.Z = P, g.normal(size=n) * 2 + P[:, 0] / P[:, 0].max()
        # repeated locations
        self.pinv = None
        if walk["focus"] == "pinv":
            self.pinv = r.choice(("pinv", "pinvh"))
            again = r.sample(range(n), r.choice((0, 1, 2, 3)))
            self.P, self.Z = np.vstack([P, P[again]]), np.concatenate([self.Z, g.normal(size=len(again))])
        lo, hi = P.min(axis=0), P.max(axis=0)
        q = lo + (hi - lo) * g.random((5, self.dim))
        q[3] = P[2]
        self.pts = q
        self.grid = [np.sort(lo[a] + (hi[a] - lo[a]) * g.random(m)) for a, m in zip(range(self.dim), (3, 2, 2))]
        self.grid[0][1] = P[4, 0]
        self.grid[0].sort()
        self.gshape = tuple(len(a) for a in reversed(self.grid))
        self.mask = g.random(self.gshape) < 0.4
        self.unit = 25.0 if c == "geo" else 1.0
        self.drift = {}
        terms = []
        if c.startswith("uk"):
            menu = ["regional_linear", "specified", "functional"] + (["point_log", "external_Z"] if c == "uk" else [])
            terms = r.sample(menu, r.randint(1, len(menu)))
            if "point_log" not in terms and c == "uk" and r.random() < 0.5:
                terms.append("point_log")
            self.drift["drift_terms"] = terms
            if "specified" in terms:
                self.drift["specified_drift"] = [self.spec(self.P)]
            if "functional" in terms:
                self.drift["functional_drift"] = [Fn("drift")]
            if "point_log" in terms:
                self.drift["point_drift"] = np.array([[lo[0] + 1.23, lo[1] + 2.6, 1.5]])
            if "external_Z" in terms:
                ex, ey = np.linspace(lo[0] - 1, hi[0] + 1, 6), np.linspace(lo[1] - 1, hi[1] + 1, 7)
                self.drift.update(external_drift_x=ex, external_drift_y=ey, external_drift=g.normal(size=(7, 6)))
        self.terms = terms
        self.cache = {}
        # answers for comparison come from processes in which nothing else
        # ever happened
        self.clean = clean.Server(self.reference)

    def spec(self, P):
        import numpy as np

        return np.cos(1.7 * P[..., 0]) + np.sin(2.3 * P[..., 1])

    def ani(self, a, sparse=False):
        if self.cls == "geo":
            return {}
        if self.dim == 2:
            kw = {"anisotropy_scaling": self.scale[a[0]], "anisotropy_angle": self.angle[a[1]]}
        else:
            kw = {"anisotropy_scaling_y": self.scale[a[0]], "anisotropy_scaling_z": self.scale[a[1]], "anisotropy_angle_x": self.angle[a[2]],
                  "anisotropy_angle_y": self.angle[a[3]], "anisotropy_angle_z": self.angle[a[4]]}
        if sparse:
            kw = {k: v for k, v in kw.items() if v not in (0.0, 1.0)}
        return kw

    def vario(self, v):
        kw = self.vario_(v)
        p = kw.get("variogram_parameters")
        if self.pinv and v != 3:
            # no nugget: repeated locations make the system singular
            if isinstance(p, dict):
                p["nugget"] = 0.0
            elif p:
                p[2] = 0.0
        return kw

    def vario_(self, v):
        u = self.unit
        if v == 1:
            return {"variogram_model": "spherical", "variogram_parameters": [3.0, 6.0 * u, 0.4]}
        if v == 2:
            return {"variogram_model": "spherical", "variogram_parameters": {"sill": 2.9, "range": 4.5 * u, "nugget": 0.9}}
        if v == 3:
            return {"variogram_model": "exponential", "variogram_parameters": {"nugget": 0.2, "psill": 2.2, "range": 9.0 * u}}
        if v == 4:
            return {"variogram_model": "linear"}
        if v == 5:
            return {"variogram_model": "linear", "nlags": 9, "weight": True}
        return {"variogram_model": "custom", "variogram_parameters": [2.0, 3.0 * u, 0.3], "variogram_function": Fn("vario" if v == 6 else "vario2")}

    def make(self, cfg, sparse=False):
        kw = dict(self.vario(cfg["v"]), **self.ani(cfg["a"], sparse))
        kw.update({k: copy.deepcopy(v) for k, v in self.drift.items()})
        if self.cls == "geo":
            kw["coordinates_type"] = "geographic"
        if self.cls in ("ok", "geo"):
            kw["enable_statistics"] = True
        if self.pinv:
            kw.update(pseudo_inv=True, pseudo_inv_type=self.pinv)
        args = [self.P[:, t].copy() for t in range(self.dim)] + [self.Z.copy()]
        held = args + [v for v in kw.values() if not isinstance(v, (str, bool, int, float))]
        return self.K(*args, **kw), held

    def backends(self, cfg, k=0):
        b = ["loop"] if k else ["vectorized", "loop"]
        return b + (["C"] if self.cls in ("ok", "geo") and cfg["v"] < 6 else [])

    def request(self, x, cfg):
        """the x-th request: style, arguments, keywords"""
        r = random.Random(x)
        style = r.choice(("points", "grid", "masked"))
        k = r.choice((3, 6)) if self.cls in ("ok", "geo", "ok3d") and r.random() < 0.3 else 0
        kw = {"backend": r.choice(self.backends(cfg, k))}
        if k:
            kw["n_closest_points"] = k
        import numpy as np

        if style == "points":
            args = [self.pts[:, t].copy() for t in range(self.dim)]
            at = self.pts
        else:
            args = [a.copy() for a in self.grid]
            at = np.stack(np.meshgrid(*self.grid, indexing="ij"), axis=-1)
            at = at.transpose(*reversed(range(self.dim)), self.dim)
        if style == "masked":
            kw["mask"] = self.mask.copy()
        if "specified" in self.terms:
            kw["specified_drift_arrays"] = [self.spec(at)]
        return style, args, kw

    def reports(self, real):
        import numpy as np

        out = {"lags": real.lags, "semivariance": real.semivariance, "residuals": real.get_epsilon_residuals(),
               "statistics": real.get_statistics(), "parameters": real.variogram_model_parameters,
               "model": real.variogram_function(real.variogram_model_parameters, np.array(real.lags))}
        if hasattr(real, "get_variogram_points"):
            out["points"] = real.get_variogram_points()
        return {k: np.array(v, dtype=float).ravel() for k, v in out.items()}

    def reference(self, what, cfg, x):
        real, _ = self.make(cfg)
        if what == "reports":
            return self.reports(real)
        style, args, kw = self.request(x, cfg)
        return real.execute(style, *args, **kw)

    def fresh(self, cfg):
        """what a fresh object reports"""
        return self.ask("reports", cfg, 0)

    def want(self, x, cfg):
        """what a fresh object answers"""
        return self.ask("execute", cfg, x)

    def ask(self, *q):
        key = json.dumps(q, sort_keys=True)
        if key not in self.cache:
            self.cache[key] = self.clean(*q)
        return self.cache[key]


def close(a, b, tol):
    import numpy as np

    if a.shape != b.shape or not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
        return False
    a, b = np.ma.filled(np.ma.masked_array(a), 0.0), np.ma.filled(np.ma.masked_array(b), 0.0)
    s = max(1e-12, np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 1.0)
    return bool(np.allclose(a, b, rtol=tol, atol=tol * s, equal_nan=True))


def bad_call(w, real, cfg, now, x):
    """a call that must be refused or break off; returns (what, callable) or None"""
    import numpy as np

    r = random.Random(x * 31 + 5)
    ani = w.ani(cfg["a"])
    U = real.update_variogram_model
    n = len(w.Z)
    style, args, kw = w.request(x, now)

    def broken_update(which):
        def call():
            v = dict(w.vario(6), **ani)
            twin = copy.deepcopy(real)
            f = Fn("vario")
            twin.update_variogram_model(**dict(v, variogram_function=f))
            if not f.calls:
                raise Broken("never called")
            g = Fn("vario")
            g.arm(r.randint(1, f.calls) if which else f.calls)
            U(**dict(v, variogram_function=g))
            return "again"  # was not called as often this time: settings are in force

        return call

    def broken_request(fns):
        def call():
            for f in fns:
                f.disarm()
            real.execute(style, *args, **kw)
            m = [f.calls for f in fns]
            k = max(range(len(fns)), key=lambda i: m[i])
            if not m[k]:
                raise Broken("never called")
            fns[k].arm(r.randint(1, m[k]))
            try:
                real.execute(style, *args, **kw)
            finally:
                for f in fns:
                    f.disarm()
            return "fine"

        return call

    menu = [
        ("unknown model", lambda: U("nonsense", [1.0, 2.0, 0.1], **ani)),
        ("too few parameters", lambda: U("spherical", [1.0, 2.0], **ani)),
        ("too many parameters", lambda: U("linear", [1.0, 2.0, 3.0], **ani)),
        ("a key is missing", lambda: U("exponential", {"sill": 1.0, "nugget": 0.1}, **ani)),
        ("no sill", lambda: U("gaussian", {"range": 1.0, "nugget": 0.1}, **ani)),
        ("custom without a function", lambda: U("custom", [1.0], **ani)),
        ("custom without parameters", lambda: U("custom", None, Fn("vario"), **ani)),
        ("string parameters", lambda: U("spherical", "abc", **ani)),
        ("no lags", lambda: U("linear", None, None, 0, **ani)),
        ("function broken off", broken_update(True)),
        ("function broken off", broken_update(True)),
        ("function broken off late", broken_update(False)),
        ("bad style", lambda: real.execute("nonsense", *args, **kw)),
        ("bad backend", lambda: real.execute(style, *args, **dict(kw, backend="nonsense"))),
        ("mask missing", lambda: real.execute("masked", *w.grid, **{k: v for k, v in kw.items() if k != "mask"})) if style != "points" else
        ("point lists", lambda: real.execute("points", args[0][:-1], *args[1:], **kw)),
        ("mask of another shape", lambda: real.execute("masked", *w.grid, **dict(kw, mask=np.zeros((6,) * w.dim, bool)))) if style != "points" else
        ("point lists", lambda: real.execute("points", *args[:-1], args[-1][:-2], **kw)),
    ]
    if w.cls in ("ok", "geo", "ok3d"):
        menu += [("window of one", lambda: real.execute(style, *args, **dict(kw, backend="loop", n_closest_points=1))),
                 ("window too large", lambda: real.execute(style, *args, **dict(kw, backend="loop", n_closest_points=n + 1)))]
    if "specified" in w.terms:
        menu += [("drift values missing", lambda: real.execute(style, *args, **{k: v for k, v in kw.items() if k != "specified_drift_arrays"}))]
    if "external_Z" in w.terms:
        far = [np.array([1e9, 2e9])] * 2
        menu += [("outside the drift grid", lambda: real.execute("points", *far, **({"specified_drift_arrays": [np.zeros(2)]} if "specified" in w.terms else {})))]
    fns = [f for f in getattr(real, "_verif_fns", ())]
    if fns:
        menu += [("request broken off", broken_request(fns))] * 3
    return r.choice(menu)


def replay(walk):
    w = World(walk)
    try:
        return replay_(walk, w)
    finally:
        w.clean.close()


def replay_(walk, w):
    import numpy as np

    out = {"bad": [], "steps": 0, "compared": 0, "refused": 0}
    objs, cfgs, held, fns = {}, {}, {}, {}

    def attach(o, kw_held):
        fns[o] = [f for a in kw_held for f in (a if isinstance(a, list) else [a]) if isinstance(f, Fn)]

    def say(t, text):
        out["bad"].append([t, text])

    def observe(t, o, deep, x):
        cfg = cfgs[o]
        tol = 1e-5 if cfg["v"] in (4, 5) or w.pinv else 1e-7
        for xx in (x, 1 + o % 3):
            style, args, kw = w.request(xx, cfg)
            try:
                z, s = objs[o].execute(style, *args, **kw)
            except Exception as ex:
                say(t, f"object {o}: a {style} {kw.get('backend')} request failed: {type(ex).__name__}: {ex}"[:200])
                continue
            z0, s0 = w.want(xx, cfg)
            out["compared"] += z.size
            if not close(z, z0, tol):
                say(t, f"object {o}: {style} {kw.get('backend')} estimates are not those of a fresh object with the same settings")
            if not close(s, s0, tol):
                say(t, f"object {o}: {style} {kw.get('backend')} variances are not those of a fresh object with the same settings")
            if walk["focus"] == "pure":
                style0, args0, kw0 = w.request(xx, cfg)
                for a, b in zip(args, args0):
                    if not np.array_equal(a, b):
                        say(t, "the request's coordinates were changed")
                if "mask" in kw and not np.array_equal(kw["mask"], kw0["mask"]):
                    say(t, "the request's mask was changed")
                if "specified_drift_arrays" in kw and not np.array_equal(kw["specified_drift_arrays"][0], kw0["specified_drift_arrays"][0]):
                    say(t, "the request's drift values were changed")
                # the caller uses everything for something else
                for a in [z, s] + args + list(kw.get("specified_drift_arrays", ())):
                    a[...] = 55.5
                if "mask" in kw:
                    kw["mask"][...] = True
        if deep:
            ref = w.fresh(cfg)
            try:
                got = w.reports(objs[o])
            except Exception as ex:
                say(t, f"object {o}: a report failed: {type(ex).__name__}: {ex}"[:200])
                return
            for k in ref:
                if w.pinv and k in ("residuals", "statistics"):
                    continue  # answered, but quotients of roundings
                if not close(got[k], ref[k], tol):
                    say(t, f"object {o}: reported {k} are not those of a fresh object with the same settings")
                    break
            if walk["focus"] == "pure":
                # what a report returned is used for something else
                given = [objs[o].get_epsilon_residuals()]
                if hasattr(objs[o], "get_variogram_points"):
                    given += list(objs[o].get_variogram_points())
                for a in given:
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = 66.6

    for t, ev in enumerate(walk["log"]):
        o, x = ev["o"], ev["x"]
        out["steps"] += 1
        if ev["op"] == "new":
            objs[o], h = w.make(ev["cfg"], x % 2)
            attach(o, h)
            cfgs[o] = ev["cfg"]
            if walk["focus"] == "pure":
                for a in h:
                    if isinstance(a, np.ndarray):
                        a[...] = a * 2 + 1
                    elif isinstance(a, list) and a and isinstance(a[0], np.ndarray):
                        a[0][...] = 9.0
                    elif isinstance(a, dict):
                        for k in a:
                            a[k] = 17.0
                    elif isinstance(a, list):
                        del a[:]
        elif ev["op"] == "upd":
            kw = dict(w.vario(ev["cfg"]["v"]), **w.ani(ev["cfg"]["a"], x % 2))
            p = kw.get("variogram_parameters")
            q = copy.deepcopy(p)
            try:
                objs[o].update_variogram_model(**kw)
            except Exception as ex:
                say(t, f"object {o}: an update was refused: {type(ex).__name__}: {ex}"[:200])
                break
            if not np.array_equal(q, p):
                say(t, "the parameters handed over were changed")
            if walk["focus"] == "pure":
                if isinstance(p, dict):
                    p.clear()
                elif p is not None:
                    p[0] = 44.0
            fns[o] = [f for f in fns[o] if f.what == "drift"] + [f for f in kw.values() if isinstance(f, Fn)]
            cfgs[o] = ev["cfg"]
        elif ev["op"] == "bad":
            objs[o]._verif_fns = fns[o]
            what, fn = bad_call(w, objs[o], ev["cfg"], cfgs[o], x)
            del objs[o]._verif_fns
            try:
                again = fn()
            except Exception:
                out["refused"] += 1
            else:
                if again == "again":
                    objs[o].update_variogram_model(**dict(w.vario(cfgs[o]["v"]), **w.ani(cfgs[o]["a"])))
                elif again != "fine":
                    # whether it should have been refused is another property
                    say(t, f"not refused: {what}")
            for f in fns[o]:
                f.disarm()
        elif ev["op"] == "copy":
            objs[ev["p"]] = copy.deepcopy(objs[o]) if x % 2 else pickle.loads(pickle.dumps(objs[o]))
            fns[ev["p"]] = []
            cfgs[ev["p"]] = cfgs[o]
        for p in objs:
            observe(t, p, p == o or p == ev["p"] or x % 5 == 0, x)
        if out["bad"]:
            break
    return out


def check(ck, focus, count, big=False):
    from vlib import build, pool, tlc

    base = {"Seed": ck.seed, "Focus": focus, "Lo": 1, "Hi": count, "Steps": 8}
    if focus == "pinv":
        runs = []
    elif focus == "update":
        runs = [("2", 6, 2, 1), ("2", 3, 1, 2), ("5", 6, 1, 1)] if not big else [("2", 6, 2, 2), ("5", 6, 2, 1)]
    else:
        runs = [("2", 6, 1, 2)]
    for dim, mods, vals, objects in runs:
        res = tlc.run("Lifecycle", tlc.cfg(constants=dict(base, Mode="check", Dim="=" + dim, Mods=mods, Vals=vals, Objects=objects, Faults="={}"),
                                           invariants=["NoHistory", "AnswersOwn"]), heap="8g", timeout=3000)
        if res.violated:
            raise build.Machinery("Lifecycle.tla violates its own obligation")
        ck.count("states", res.distinct)
        ck.count("transitions", res.states)
    def control(f):
        return f, tlc.run("Lifecycle", tlc.cfg(constants=dict(base, Mode="check", Dim=2, Mods=7 if f == "shared" else 5, Vals=1,
                                                                      Objects=2 if f == "shared" else 1, Faults='={"%s"}' % f),
                                               invariants=["NoHistory", "AnswersOwn"]), workers=1, expect_violation=True)

    with ThreadPoolExecutor(4) as ex:
        controls = list(ex.map(control, FAULTS if focus == "update" else () if focus == "pinv" else ("early", "halfway")))
    for f, res in controls:
        if not {"NoHistory", "AnswersOwn"} & set(res.violated):
            raise build.Machinery(f"the fault {f} goes unnoticed in Lifecycle.tla")
        ck.count("negative_controls")
    res = tlc.run("Lifecycle", tlc.cfg(constants=dict(base, Mode="emit", Dim=2, Mods=7, Vals=2, Objects=3, Faults="={}"), invariants=["NoHistory", "AnswersOwn"]))
    ck.count("states", res.distinct)
    ck.count("transitions", res.states)
    tasks = [dict(t, focus=focus, seed=ck.seed) for t in res.lines]
    if len(tasks) != count:
        raise build.Machinery("TLC did not emit every walk")
    for t, g in zip(tasks, pool.run("lifecycle", "replay", tasks)):
        if "crash" in g:
            ck.violation(f"[life] walk {t['id']}: {g['crash']}"[:900], {"suite": "lifecycle", "func": "replay", "task": t})
            continue
        ck.count("walks_" + focus)
        ck.count("traces_validated_against_impl")
        ck.count("steps_replayed", g["steps"])
        ck.count("answers_compared", g["compared"])
        ck.count("calls_refused", g["refused"])
        for at, text in g["bad"][:1]:
            ck.violation(f"[life] walk {t['id']} {t['cls']} step {at} {json.dumps(t['log'][at])}: {text}", {"suite": "lifecycle", "func": "replay", "task": t})
    if tasks:
        ck.sample({"walk": tasks[len(tasks) // 2]["log"][:4]})
