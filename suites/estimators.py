"""Episodes on the scikit-learn estimators, judged by spec/TraceSem.tla."""
import copy

from . import episodes
from .episodes import BAD, Custom, Ep, degrees, micro

NOVAR = 2147483646
METHODS = {2: ("ordinary", "universal"), 3: ("ordinary3d", "universal3d")}
CLS = {"ordinary": "ok", "universal": "uk", "ordinary3d": "ok3d", "universal3d": "uk3d"}


def stub():
    """a regression that says slope * predictor + first target"""
    from sklearn.base import BaseEstimator, RegressorMixin

    class Stub(RegressorMixin, BaseEstimator):
        def __init__(self, slope=1.0, whole=False):
            self.slope, self.whole = slope, whole

        def fit(self, X, y):
            self.first_ = float(y[0])
            return self

        def predict(self, X):
            y = self.slope * X[:, 0].astype(float) + self.first_
            # whole numbers may come as such
            return y.astype(int) if self.whole and (y == y.round()).all() else y

    return Stub


class EpE(Ep):
    def log(self):
        return dict(super().log(), valid=False)

    # ----------------------------------------------------------- parameters
    def setup(self):
        ok = self.context(("uk", "uk", "uk3d"), codes=("lin", "w1", "ext", "fxy") if self.chance(0.8) else ("fx", "w1"),
                          n=(8, 11), drift=0.8, big=False)
        if not ok:
            return False
        self.fr = dict(self.frame(), rot=[0] * self.dim if self.dim == 3 else [0])
        s = self.settings(cls="ok" if self.dim == 2 else "ok3d", drift=[])
        return self.wellposed(s)

    def draw_P(self, ident):
        """parameters of an estimator in the terms of the specification"""
        r = self.r
        k = r.choice((0, 0, r.randint(2, len(self.data)), r.randint(2, len(self.data))))
        return {"method": r.choice(METHODS[self.dim]), "vario": self.vario, "ang": pad(self.ang, 3, 0), "sca": pad(self.sca, 2, [1, 1]),
                "k": k, "exact": self.chance(0.7), "drift": self.drift, "geo": False}

    def fine(self, P):
        s = self.settings_of(P)
        return self.wellposed(s)

    def settings_of(self, P, **over):
        three = P["method"].endswith("3d")
        s = {"cls": CLS[P["method"]], "vario": P["vario"], "ang": P["ang"] if three else P["ang"][:1],
             "sca": P["sca"] if three else P["sca"][:1], "exact": P["exact"],
             "drift": P["drift"] if P["method"].startswith("universal") else []}
        s.update(over)
        return self.settings(**s)

    def real_params(self, P, only=None):
        """the same parameters as the estimator takes them"""
        kw = {}
        v = self.vario_kw(P["vario"], self.fr["ui"])
        for name, dflt in (("variogram_model", "linear"), ("variogram_parameters", None), ("variogram_function", None), ("nlags", 6), ("weight", False)):
            kw[name] = v.get(name, dflt)
        t = [degrees(a) for a in P["ang"]]
        u = [a / b for a, b in P["sca"]]
        kw["anisotropy_angle"], kw["anisotropy_scaling"] = tuple(t), tuple(u)
        kw["method"], kw["exact_values"] = P["method"], P["exact"]
        kw["n_closest_points"] = P["k"] or None
        kw["coordinates_type"] = "geographic" if P["geo"] else "euclidean"
        pres = {"spec": []}
        d = self.drift_kw(self.settings(drift=P["drift"]), self.fr, pres) if P["drift"] or self.chance(0.5) else {}
        kw["drift_terms"] = d.get("drift_terms")
        kw["point_drift"] = d.get("point_drift")
        kw["functional_drift"] = d.get("functional_drift")
        kw["ext_drift_grid"] = (d.get("external_drift"), d.get("external_drift_x"), d.get("external_drift_y"))
        if only:
            names = {"method": ("method",), "vario": ("variogram_model", "variogram_parameters", "variogram_function", "nlags", "weight"),
                     "ani": ("anisotropy_angle", "anisotropy_scaling"), "k": ("n_closest_points",), "exact": ("exact_values",),
                     "drift": ("drift_terms", "point_drift", "functional_drift", "ext_drift_grid"), "geo": ("coordinates_type",)}
            keep = [n for o in only for n in names[o]]
            kw = {k: kw[k] for k in keep}
        return kw

    # --------------------------------------------------------------- events
    def est(self, o, P, make):
        kw = self.real_params(P)
        for name, dflt in (("n_closest_points", 10), ("exact_values", True), ("nlags", 6), ("weight", False), ("drift_terms", None),
                           ("coordinates_type", "euclidean"), ("variogram_parameters", None), ("point_drift", None)):
            if kw[name] == dflt if not isinstance(kw[name], (list,)) and not hasattr(kw[name], "shape") else False:
                if self.chance(0.5):
                    del kw[name]
        if self.gs not in (1e-9, 1e7) and self.chance(0.5) and (not self.drift or (self.ui in (0, 2) and not any(self.off) and self.gs == 1.0)):
            # one answer here, with a generalised inverse or without; not on systems of very
            # different magnitudes, where the generalised inverse keeps fewer digits
            kw.update(pseudo_inv=True, pseudo_inv_type=self.r.choice(("pinv", "pinvh")))
        if self.chance(0.2):
            kw.update(enable_statistics=True)
        if self.talk.random() < 0.15:
            kw["verbose"] = True
        err = ""
        try:
            real = make(**kw)
        except Exception as e:
            real, err = None, f"{type(e).__name__}: {e}"[:200]
        self.objs[o] = {"real": real, "P": copy.deepcopy(P), "kw": kw, "fit": None}
        self.events.append({"op": "est", "o": o, "P": copy.deepcopy(P), "err": err})
        return real is not None

    def setp(self, o, ch):
        """change parameters; ch in the terms of the specification"""
        ob = self.objs[o]
        P = dict(copy.deepcopy(ob["P"]), **copy.deepcopy(ch))
        only = set()
        for c in ch:
            only.add("ani" if c in ("ang", "sca") else c)
        kw = self.real_params(P, sorted(only))
        err = ""
        try:
            ob["real"].set_params(**kw)
        except Exception as e:
            err = f"{type(e).__name__}: {e}"[:200]
        ob["P"] = P
        ob["kw"].update(kw)
        self.events.append({"op": "setp", "o": o, "ch": copy.deepcopy(ch), "err": err})

    def getp(self, o):
        ob = self.objs[o]
        wrong = ""
        try:
            have = ob["real"].get_params()
            for k, v in ob["kw"].items():
                if not (have[k] is v or episodes.same(have[k], episodes.snapshot(v))):
                    wrong = k
        except Exception as e:
            wrong = f"{type(e).__name__}: {e}"[:200]
        self.events.append({"op": "getp", "o": o, "wrong": wrong})

    def sclone(self, o, p):
        from sklearn.base import clone

        ob, err, real = self.objs[o], "", None
        try:
            real = clone(ob["real"])
        except Exception as e:
            err = f"{type(e).__name__}: {e}"[:200]
        self.objs[p] = {"real": real, "P": copy.deepcopy(ob["P"]), "kw": dict(ob["kw"]), "fit": None}
        self.events.append({"op": "sclone", "o": o, "p": p, "err": err})
        return real is not None

    def positions(self, cells):
        import numpy as np

        return np.array([self.actual(p, self.fr) for p in cells])

    def targets(self, co, data):
        """values of the residuals in units"""
        return [co[0] * self.basis(p)[0] + co[1] * self.basis(p)[1] + co[2] for p in data]

    def X(self, cells):
        """coordinates as a caller may hand them over"""
        import numpy as np

        X = self.positions(cells)
        how = self.r.choice(("c", "c", "f", "ro", "int", "wide"))
        if how == "f":
            X = np.asfortranarray(X)
        elif how == "int" and (X == np.rint(X)).all():
            X = X.astype(int)
        elif how == "wide":
            W = np.full((len(X), X.shape[1] + 2), 3e7)
            W[:, 1:-1] = X
            X = W[:, 1:-1]
        elif how == "ro":
            X.flags.writeable = False
        return self.hold("coordinates", X)

    def fit(self, o, co, data=None):
        import numpy as np

        ob = self.objs[o]
        data = data or self.data
        res = self.targets(co, data)
        ev = {"op": "fit", "o": o, "data": copy.deepcopy(data), "co": co, "reg": False, "err": ""}
        had = ob.get("arrays")
        if had and len(had[0]) == len(data) and self.chance(0.6):
            # the caller fills the arrays of the last fit with new numbers
            X, y = had
            self.held = [t for t in self.held if t[1] is not X and t[1] is not y]
            if X.flags.writeable and np.can_cast(float, X.dtype, "same_kind"):
                X[...] = self.positions(data)
            else:
                X = self.X(data)
            if y.flags.writeable and y.dtype == float:
                y[...] = np.array(res, dtype=float) * self.vs
            else:
                y = numbers(self, np.array(res, dtype=float) * self.vs)
            self.hold("coordinates", X)
        else:
            y = numbers(self, np.array(res, dtype=float) * self.vs)
            X = self.X(data)
        self.hold("targets", y)
        ob["arrays"] = (X, y)
        try:
            ob["real"].fit(X, y)
            ob["fit"] = (copy.deepcopy(ob["P"]), co, data)
        except Exception as e:
            ev["err"] = f"{type(e).__name__}: {e}"[:200]
        self.events.append(ev)
        return not ev["err"]

    def answer(self, ev, z, v=None, vario=None):
        import numpy as np

        ev["shape"] = list(np.shape(z))
        z = np.asarray(z, dtype=float).ravel()
        ev["z"] = [micro(t, self.vs) for t in z]
        ev["m"] = [False] * len(z)
        if v is None:
            ev["v"] = [NOVAR] * len(z)
        else:
            g = self.gscale({"vario": vario})
            ev["v"] = [micro(t, g) for t in np.asarray(v).ravel()]
            ev["z"] = [BAD if b == BAD else a for a, b in zip(ev["z"], ev["v"])]

    def pred(self, o, cells, how="predict"):
        import numpy as np

        ob, r = self.objs[o], self.r
        P = ob["fit"][0]
        ev = {"op": "pred", "o": o, "style": "points", "pts": copy.deepcopy(cells), "plus": False, "err": "", "how": how,
              "shape": [], "z": [], "v": [], "m": []}
        kw = {}
        if self.chance(0.4):
            kw["backend"] = r.choice(self.backends(P["k"] if P["method"].startswith("ordinary") else 0, self.settings_of(P)))
        # the places asked for may stand among others
        more = [r.choice(self.universe) for _ in range(r.randint(5, 60))] if self.chance(0.3) else []
        X = self.X(cells + more)
        names = ("xpoints", "ypoints", "zpoints")
        pts = self.hold("points", {n: X[:, t].copy() for t, n in enumerate(names[: self.dim])})
        try:
            if how == "predict":
                z, v = ob["real"].predict(X, **kw), None
            else:
                z, v = ob["real"].execute(pts, **kw)
        except Exception as e:
            ev["err"] = f"{type(e).__name__}: {e}"[:200]
        else:
            if more and np.shape(z) == (len(X),):
                z, v = z[: len(cells)], None if v is None else v[: len(cells)]
            self.answer(ev, z, v, P["vario"])
        self.events.append(ev)
        return ev

    def ask_class(self, o, P, co, data, cells):
        """the kriging class itself, asked the same"""
        s = self.settings_of(P, co=co, data=data)
        if self.new(o, s, fr=self.fr, forms=False):
            k = P["k"] if P["method"].startswith("ordinary") else 0
            self.exec(o, {"style": "points", "pts": cells}, self.r.choice(self.backends(k, s)), k)

    def refused(self, o, what, fn):
        self.bad(o, what, fn)


def numbers(e, a):
    """the same numbers in another type or layout"""
    import numpy as np

    a = np.array(a, dtype=float)
    how = e.r.choice(("f8", "f8", "int", "i4", "f4", "fortran", "ro", "swap"))
    if how == "i4" and np.abs(a).max() > 2e9:
        how = "int"
    if how in ("int", "i4") and (a == np.rint(a)).all():
        return a.astype(int if how == "int" else np.int32)
    if how == "f4" and (a == a.astype(np.float32)).all():
        return a.astype(np.float32)
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "swap":
        return a.astype(">f8")
    if how == "ro":
        a.flags.writeable = False
    return a


def pad(a, n, x):
    a = copy.deepcopy(list(a))
    return a + [copy.deepcopy(x) for _ in range(n - len(a))]


COS = ([1, 0, 0], [0, 1, 0], [1, 1, 2], [2, -1, 0], [0, 0, 7], [1, 0, -3])


def ep_wrap(e):
    """histories of Krige estimators"""
    from pykrige.compat import Krige

    if not e.setup():
        return
    r = e.r
    o, nxt, ref = 0, 10, 100
    P = e.draw_P(0)
    if not e.fine(P):
        return
    if not e.est(o, P, Krige):
        return
    cells = [r.choice(e.universe) for _ in range(5)] + [r.choice(e.data)]
    e.refused(o, "prediction before fitting", lambda: e.objs[o]["real"].predict(e.positions(cells)))
    dirty = True
    for t in range(r.randint(4, 8)):
        ob = e.objs[o]
        what = r.choice(("setp", "setp", "fit", "fit", "pred", "pred", "clone", "bad", "getp", "other"))
        if what == "setp":
            ch = {}
            c = r.choice(("method", "vario", "exact", "ani", "drift", "k", "geo"))
            if c == "method":
                ch["method"] = r.choice(METHODS[e.dim])
            elif c == "vario":
                ch["vario"] = e.draw_vario()
            elif c == "exact":
                ch["exact"] = not ob["P"]["exact"]
            elif c == "ani":
                ang, sca = e.draw_ani()
                ch.update(ang=pad(ang, 3, 45 if e.dim == 2 else 0), sca=pad(sca, 2, [3, 1]))
            elif c == "drift":
                ch["drift"] = r.choice(([], e.drift))
            elif c == "k":
                ch["k"] = r.choice((0, r.randint(2, len(e.data))))
            elif ob["P"]["method"] == "universal":
                ch.update(geo=True)
            P2 = dict(ob["P"], **ch)
            if P2["geo"] and P2["method"] == "ordinary":
                P2["geo"] = ch["geo"] = False
            if ch and e.fine(P2):
                e.setp(o, ch)
                dirty = True
                if "k" in ch:
                    ob["mustfit"] = True
                if ob["fit"] and not ob.get("mustfit") and e.chance(0.5):
                    e.pred(o, cells, r.choice(("predict", "execute")))
        elif what == "fit" or (what == "pred" and (not ob["fit"] or ob.get("mustfit"))):
            co = r.choice(COS)
            data = e.data if e.chance(0.6) else r.sample(e.data, len(e.data) - 1)
            k = ob["P"]["k"]
            if k > len(data):
                data = e.data
            if e.fine(ob["P"]) and e.wellposed(e.settings_of(ob["P"]), data):
                e.fit(o, co, data)
                ob["mustfit"] = False
                e.pred(o, cells)
                if ob["fit"]:
                    e.ask_class(ref, ob["fit"][0], co, data, cells)
                    ref += 1
        elif what == "pred":
            e.pred(o, cells if e.chance(0.7) else e.r.sample(e.universe, min(3, len(e.universe))), r.choice(("predict", "execute")))
        elif what == "clone":
            if e.sclone(o, nxt):
                n = nxt
                e.refused(n, "prediction of an unfitted clone", lambda: e.objs[n]["real"].predict(e.positions(cells)))
                if e.chance(0.4):
                    o = nxt
                elif e.fine(ob["P"]):
                    e.fit(nxt, r.choice(COS))
                    e.pred(nxt, cells)
            nxt += 1
        elif what == "bad":
            import numpy as np

            Q = e.positions(cells)
            wrong = Q[:, :-1] if e.dim == 3 or e.chance(0.5) else np.hstack([Q, Q[:, :1]])
            if e.chance(0.5):
                if ob["fit"]:
                    e.refused(o, "points of the wrong dimension", lambda: ob["real"].predict(wrong))
            else:
                e.refused(o, "data of the wrong dimension", lambda: ob["real"].fit(wrong, np.arange(float(len(wrong)))))
            if e.chance(0.3):
                e.refused(o, "an unknown method", lambda: Krige(method="kriging"))
            if ob["fit"] and not ob.get("mustfit"):
                e.pred(o, cells)
        elif what == "getp":
            e.getp(o)
        elif what == "other" and ob["fit"] and not ob.get("mustfit"):
            # another estimator comes and goes
            P3 = e.draw_P(1)
            if e.fine(P3):
                e.est(nxt, P3, Krige)
                e.fit(nxt, r.choice(COS))
                e.pred(nxt, cells)
                nxt += 1
                e.pred(o, cells)
    e.args_check(o)


def ep_search(e):
    """cross-validation and parameter search with the estimator inside"""
    import numpy as np
    from pykrige.compat import Krige
    from sklearn.model_selection import GridSearchCV, cross_val_predict

    if not e.setup():
        return
    r = e.r
    P = e.draw_P(0)
    n = len(e.data)
    folds = r.choice((2, 3, 4))
    lab = [i % folds for i in range(n)]
    r.shuffle(lab)
    splits = [([i for i in range(n) if lab[i] != f], [i for i in range(n) if lab[i] == f]) for f in range(folds)]
    small = min(len(a) for a, _ in splits)
    P["k"] = 0 if P["k"] == 0 or small < 3 else min(P["k"], small)
    sub = [[e.data[i] for i in a] for a, _ in splits]
    if not e.fine(P) or not all(e.wellposed(e.settings_of(P), d) for d in sub):
        return
    if not e.est(0, P, Krige):
        return
    co = r.choice(COS[:4])
    X, y = e.X(e.data), np.array(e.targets(co, e.data), dtype=float) * e.vs
    o = 1
    if e.chance(0.5):
        try:
            z, err = cross_val_predict(e.objs[0]["real"], X, y, cv=splits), ""
        except Exception as ex:
            z, err = None, f"{type(ex).__name__}: {ex}"[:200]
        for f, (a, b) in enumerate(splits):
            e.events.append({"op": "sclone", "o": 0, "p": o, "err": ""})
            e.events.append({"op": "fit", "o": o, "data": sub[f], "co": co, "reg": False, "err": ""})
            ev = {"op": "pred", "o": o, "style": "points", "pts": [e.data[i] for i in b], "plus": False, "err": err, "shape": [], "z": [], "v": [], "m": []}
            if not err:
                e.answer(ev, z[b])
            e.events.append(ev)
            e.ask_class(100 + o, P, co, sub[f], [e.data[i] for i in b])
            o += 1
        return
    # a search over some parameters
    cand = [copy.deepcopy(P)]
    grid = {}
    if e.chance(0.5):
        ms = list(METHODS[e.dim])
        if all(e.wellposed(e.settings_of(dict(P, method=m)), d) for m in ms for d in sub):
            cand = [dict(c, method=m) for c in cand for m in ms]
            grid["method"] = ms
    if e.chance(0.6):
        cand = [dict(c, exact=x) for c in cand for x in (True, False)]
        grid["exact_values"] = [True, False]
    if e.chance(0.6) and small >= 4:
        cand = [dict(c, k=k) for c in cand for k in (small - 1, 0)]
        grid["n_closest_points"] = [small - 1, None]
    if not grid:
        grid["exact_values"] = [P["exact"]]
    names = sorted(grid)
    from sklearn.model_selection import ParameterGrid

    order = []
    for p in ParameterGrid(grid):
        c = dict(P)
        for nme, v in p.items():
            if nme == "method":
                c["method"] = v
            elif nme == "exact_values":
                c["exact"] = v
            else:
                c["k"] = v or 0
        order.append(c)
    calls = []

    def scorer(est, Xt, yt):
        z = est.predict(Xt)
        calls.append((est.get_params(), np.array(z)))
        return -float(np.abs(z - yt).mean())

    try:
        gs = GridSearchCV(e.objs[0]["real"], grid, scoring=scorer, cv=splits, refit=True, error_score="raise").fit(X, y)
        err = ""
    except Exception as ex:
        err = f"{type(ex).__name__}: {ex}"[:200]
    if err or len(calls) != len(order) * folds:
        e.events.append({"op": "same", "o": 0, "key": "search", "vals": [], "err": err or "incomplete search"})
        return
    for t, (params, z) in enumerate(calls):
        c, f = order[t // folds], t % folds
        e.events.append({"op": "sclone", "o": 0, "p": o, "err": ""})
        e.events.append({"op": "setp", "o": o, "ch": {k: c[k] for k in ("method", "exact", "k")}, "err": ""})
        e.events.append({"op": "fit", "o": o, "data": sub[f], "co": co, "reg": False, "err": ""})
        pts = [e.data[i] for i in splits[f][1]]
        ev = {"op": "pred", "o": o, "style": "points", "pts": pts, "plus": False, "err": "", "shape": [], "z": [], "v": [], "m": []}
        e.answer(ev, z)
        e.events.append(ev)
        if t < 2 * folds:
            e.ask_class(100 + o, c, co, sub[f], pts)
        o += 1
    best = next(c for c, p in zip(order, ParameterGrid(grid)) if p == gs.best_params_)
    e.objs[o] = {"real": gs.best_estimator_, "P": best, "kw": {}, "fit": (best, co, e.data)}
    e.events.append({"op": "sclone", "o": 0, "p": o, "err": ""})
    e.events.append({"op": "setp", "o": o, "ch": {k: best[k] for k in ("method", "exact", "k")}, "err": ""})
    e.events.append({"op": "fit", "o": o, "data": e.data, "co": co, "reg": False, "err": ""})
    cells = r.sample(e.universe, min(5, len(e.universe)))
    e.pred(o, cells)
    e.ask_class(100 + o, best, co, e.data, cells)


class RK:
    """what an episode does with regression kriging"""

    def __init__(self, e, o):
        self.e, self.o = e, o
        self.slope = e.r.choice((1, -1, 1, -1))
        # targets far from zero, compared with what the regression leaves
        self.level = e.r.choice((0, 0, 2000000, -50000)) if e.vs != 0.1 else 0
        self.Stub = stub()

    def make(self, **kw):
        from pykrige.rk import RegressionKriging

        return RegressionKriging(regression_model=self.Stub(float(self.slope) * self.e.vs, self.e.chance(0.3)), **kw)

    def fit(self, co, data):
        import numpy as np

        e, o = self.e, self.o
        ob = e.objs[o]
        res = e.targets(co, data)
        first = e.r.randint(-20, 20)
        # the first residual has to vanish against slope * predictor
        pp = [-self.slope * res[0]] + [e.r.randint(-9, 9) for _ in data[1:]]
        if e.vs == 0.1:
            # targets in whole numbers, regression and residuals not
            first *= 10
            pp = pp[:1] + [self.slope * ((-first - t) % 10 + 10 * e.r.randint(-1, 0)) for t in res[1:]]
        y = [self.slope * p + first + t for p, t in zip(pp, res)]
        ev = {"op": "fit", "o": o, "data": copy.deepcopy(data), "co": co, "reg": True, "slope": self.slope, "y": y, "pp": pp, "err": ""}
        X = e.X(data)
        p = e.hold("predictors", numbers(e, [[t, 5.0] for t in pp]))
        yy = np.array(y) // 10 if e.vs == 0.1 else numbers(e, (np.array(y, dtype=float) + self.level) * e.vs)
        yy = e.hold("targets", yy)
        try:
            ob["real"].fit(p, X, yy)
            ob["fit"] = (copy.deepcopy(ob["P"]), co, data, pp, y)
        except Exception as ex:
            ev["err"] = f"{type(ex).__name__}: {ex}"[:200]
        e.events.append(ev)
        return not ev["err"]

    def pred(self, cells, pp=None, plus=True, score=None):
        import numpy as np

        e, o = self.e, self.o
        ob = e.objs[o]
        P = ob["fit"][0]
        # the arrays of the last prediction, as they are or filled with new numbers
        again = getattr(self, "last", None) if pp is None and e.chance(0.5) else None
        if again and score is None and e.chance(0.5):
            cells, pp = again[:2]
        elif again and len(again[0]) != len(cells):
            again = None
        pp = pp or [e.r.randint(-15, 15) for _ in cells]
        ev = {"op": "pred", "o": o, "style": "points", "pts": copy.deepcopy(cells), "plus": plus, "pp": pp, "err": "",
              "shape": [], "z": [], "v": [], "m": []}
        kw = {}
        if e.chance(0.4):
            kw["backend"] = e.r.choice(e.backends(P["k"] if P["method"].startswith("ordinary") else 0, e.settings_of(P)))
        if again and (again[1] == pp or (again[2].flags.writeable and np.array_equal(np.array(pp).astype(again[2].dtype), pp))):
            p = again[2]
            e.held = [t for t in e.held if t[1] is not p]
            if again[1] != pp:
                p[:, 0] = pp
            e.hold("predictors", p)
        else:
            p = e.hold("predictors", numbers(e, [[t, -2.0] for t in pp]))
        X = again[3] if again and again[0] == cells else e.X(cells)
        self.last = (copy.deepcopy(cells), list(pp), p, X)
        val = None
        try:
            z = ob["real"].predict(p, X, **kw) if plus else ob["real"].krige_residual(X, **kw)
            if score:
                y, w = score
                val = ob["real"].score(p, X, numbers(e, (np.array(y, dtype=float) + self.level) * e.vs), **(dict(sample_weight=np.array(w, dtype=float)) if w else {}), **kw)
        except Exception as ex:
            ev["err"] = f"{type(ex).__name__}: {ex}"[:200]
        else:
            e.answer(ev, z - self.level * e.vs if plus and self.level else z)
        e.events.append(ev)
        if val is not None and abs(val) < 1000 and max(map(abs, ev["z"])) < 10**9:
            y, w = score
            e.events.append({"op": "score", "o": o, "z": ev["z"], "y": y, "w": w or [1] * len(y), "val": micro(val)})
        return ev


def ep_regress(e):
    """histories of regression kriging"""
    if e.ident % 4 == 1:
        e.vs = 0.1
    if not e.setup():
        return
    r = e.r
    live = []
    for o in range(r.choice((1, 1, 2))):
        P = e.draw_P(o)
        if not e.fine(P):
            continue
        k = RK(e, o)
        if e.est(o, P, k.make):
            live.append(k)
    ref = 100
    for t in range(r.randint(3, 6)):
        if not live:
            return
        k = r.choice(live)
        ob = e.objs[k.o]
        if not ob["fit"] or e.chance(0.35):
            co = r.choice(COS)
            data = e.data if e.chance(0.6) or ob["P"]["k"] >= len(e.data) else r.sample(e.data, len(e.data) - 1)
            if not e.wellposed(e.settings_of(ob["P"]), data):
                data = e.data
            if k.fit(co, data):
                # training samples come back
                idx = r.sample(range(len(data)), 4)
                k.pred([data[i] for i in idx], [ob["fit"][3][i] for i in idx])
                cells = [r.choice(e.universe) for _ in range(4)]
                e.ask_class(ref, ob["P"], co, data, cells)
                k.pred(cells)
                k.pred(cells)
                ref += 1
        else:
            cells = [r.choice(e.universe) for _ in range(5)]
            score = None
            if e.chance(0.6):
                score = ([r.randint(-25, 25) for _ in cells], [r.randint(0, 3) for _ in cells] if e.chance(0.5) else None)
                if score[1] is not None and sum(score[1]) == 0:
                    score[1][0] = 1
            k.pred(cells, plus=score is not None or e.chance(0.6), score=score)
    e.args_check(live[0].o if live else 0)
    if e.chance(0.5):
        defaults(e)


def defaults(e):
    """estimators made with nothing but defaults do not share their regression"""
    import numpy as np
    from pykrige.rk import RegressionKriging

    kw = {"method": "ordinary" if e.dim == 2 else "ordinary3d", "n_closest_points": min(5, len(e.data))}
    X = e.positions(e.data)
    p = np.array([[float(i % 4), float(i // 4)] for i in range(len(X))])
    y = [np.array(e.targets(c, e.data), dtype=float) for c in ([1, 0, 0], [0, 1, 3])]

    def ask(m, key):
        try:
            vals, err = [micro(t) for t in m.predict(p, X)], ""
        except Exception as ex:
            vals, err = [], f"{type(ex).__name__}: {ex}"[:200]
        e.events.append({"op": "same", "o": 0, "key": key, "vals": vals, "err": err})

    try:
        a, b = RegressionKriging(**kw), RegressionKriging(**kw)
        a.fit(p, X, y[0])
    except Exception as ex:
        e.events.append({"op": "same", "o": 0, "key": "A", "vals": [], "err": f"{type(ex).__name__}: {ex}"[:200]})
        return
    ask(a, "A")
    b.fit(p, X, y[1])
    ask(b, "B")
    ask(a, "A")
    c = RegressionKriging(**kw)
    c.fit(p, X, y[0])
    ask(c, "A")
    ask(b, "B")


def record(task):
    return episodes.run(EpE(task["focus"], task["id"], task["seed"]), globals()["ep_" + task["focus"]])


def replay(task):
    g = record(task)
    res = episodes.judge([g], workers=1)
    return {"bad": [r for r in res.lines if "fails" in r]}


def check(ck, focus, count):
    episodes.check(ck, focus, count, suite="estimators")
