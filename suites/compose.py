"""Compositions and classification kriging, judged by spec/Composition.tla."""
import copy
import json
import math

from . import episodes
from .estimators import EpE, METHODS


# --------------------------------------------------------- the transforms
def transforms(task):
    """lines of the enumeration put to the real functions"""
    import numpy as np
    from pykrige.ck import closure, ilr_transformation, inverse_ilr_transformation

    bad = []
    by = {}
    for ln in task["lines"]:
        by.setdefault(len(ln["u"]), []).append(ln)
    for n, lines in by.items():
        comp = lambda k: closure(np.exp2(np.array(k, dtype=float)))
        U, V, S = (comp([ln[w] for ln in lines]) for w in ("u", "v", "sum"))
        d2 = np.array([ln["d2"] for ln in lines], dtype=float)
        raw = np.exp2(np.array([ln["u"] for ln in lines], dtype=float))
        keep = (U.copy(), V.copy())
        iu, iv, is_ = (ilr_transformation(a) for a in (U, V, S))
        # zeros count as the smallest representable share
        hot = np.array([[0 if v == -52 else 1 for v in ln["v"]] for ln in lines], dtype=float)
        is_hot = np.array([min(ln["v"]) == -52 for ln in lines])
        floor = np.exp2(np.array([ln["v"] for ln in lines], dtype=float))
        # sums within a percent of one
        near = 1.0 + np.array([(17 * sum(ln["u"]) + 5 * sum(ln["v"]) + t) % 19 - 9 for t, ln in enumerate(lines)])[:, None] / 1000.0
        tests = {
            "shape": np.array([iu.shape == (len(lines), n - 1)] * len(lines)),
            "closed": np.isclose(U.sum(axis=1), 1.0) & (U > 0).all(axis=1),
            "closure keeps ratios": np.isclose(U[:, 1:] * raw[:, :1], U[:, :1] * raw[:, 1:]).all(axis=1),
            "isometry": np.isclose(n * ((iu - iv) ** 2).sum(axis=1) / math.log(2) ** 2, d2, rtol=1e-9, atol=1e-9),
            "products become sums": is_hot | np.isclose(iu + iv, is_, rtol=1e-9, atol=1e-9).all(axis=1),
            "inverse undoes the transform": np.isclose(inverse_ilr_transformation(iu), U, rtol=1e-9, atol=0).all(axis=1),
            "transform undoes the inverse": np.isclose(ilr_transformation(inverse_ilr_transformation(iu - iv)), iu - iv, rtol=1e-7, atol=1e-7).all(axis=1)
            | is_hot,
            "inverse is closed": np.isclose(inverse_ilr_transformation(3 * (iu - iv)).sum(axis=1), 1.0) & (inverse_ilr_transformation(3 * (iu - iv)) > 0).all(axis=1),
            "inverse at any scale": far_apart(iu - iv, inverse_ilr_transformation),
            "closure to another constant": np.isclose(closure(raw, 7.0), 7.0 * U).all(axis=1),
            "closure of what is almost closed": np.isclose(closure(U * near), U, rtol=1e-12).all(axis=1) & np.isclose(closure(7.0 * U * near, 7.0), 7.0 * U, rtol=1e-12).all(axis=1),
            "arguments unchanged": np.array([np.array_equal(U, keep[0]) and np.array_equal(V, keep[1])] * len(lines)),
        }
        tests["zeros are admitted"] = ~is_hot | np.isclose(ilr_transformation(hot), ilr_transformation(floor)).all(axis=1)
        for name, ok in tests.items():
            if not ok.all():
                at = int(np.argmin(ok))
                bad.append([name, lines[at]])
    return {"bad": bad, "n": len(task["lines"])}


def far_apart(x, inverse):
    """scaled up, a composition turns into its largest parts, no matter how far"""
    import numpy as np

    ok = np.ones(len(x), dtype=bool)
    near = inverse(x)
    top = near >= near.max(axis=1, keepdims=True) * (1 - 1e-9)
    second = np.where(top, 0, near).max(axis=1)
    for f in (100.0, 1e4, 1e8):
        far = inverse(f * x)
        clear = second < near.max(axis=1) * 0.7
        ok &= np.isfinite(far).all(axis=1) & np.isclose(far.sum(axis=1), 1.0)
        if f > 1e3:
            ok &= ~clear | np.isclose(far, top / top.sum(axis=1, keepdims=True), atol=1e-3).all(axis=1)
    return ok


# --------------------------------------------------------------- episodes
def classifier():
    from sklearn.base import BaseEstimator, ClassifierMixin

    class Stub(ClassifierMixin, BaseEstimator):
        """the probability of class c is proportional to 2^(predictor c)"""

        def fit(self, X, y):
            import numpy as np

            assert np.ndim(y) == 1
            self.classes_ = np.unique(y)
            return self

        def predict_proba(self, X):
            import numpy as np

            p = np.exp2(X[:, : len(self.classes_)])
            return p / p.sum(axis=1, keepdims=True)

        def predict(self, X):
            return self.classes_[self.predict_proba(X).argmax(axis=1)]

    return Stub


KINDS = ("str", "int", "neg", "obj", "gap")


def names(kind, K):
    import numpy as np

    base = {"str": ["clay", "loam", "peat", "sand"], "int": [0, 1, 2, 3], "neg": [-7, -1, 0, 12],
            "obj": ["A", "b", "c c", "zz"], "gap": [3, 11, 40, 41]}[kind][:K]
    return np.array(base, dtype=object) if kind == "obj" else np.array(base)


def ep_classify(e):
    import numpy as np
    from pykrige.ck import ClassificationKriging, inverse_ilr_transformation
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier

    if not e.setup():
        return []
    r, log = e.r, []
    e.vs = 1.0
    objs = []
    for o in range(r.choice((1, 1, 2))):
        P = e.draw_P(o)
        if not e.fine(P):
            continue
        real_model = e.chance(0.25)
        model = r.choice((LogisticRegression(), GaussianNB(), KNeighborsClassifier(3))) if real_model else classifier()()
        kw = e.real_params(P)
        objs.append({"o": o, "P": P, "real": ClassificationKriging(classification_model=model, **kw), "model": real_model, "fit": None})
    for t in range(r.randint(3, 6)):
        if not objs:
            return log
        ob = r.choice(objs)
        o, P, real = ob["o"], ob["P"], ob["real"]
        if not ob["fit"] or e.chance(0.35):
            K = r.randint(2, 4)
            data = [list(p) for p in e.data]
            r.shuffle(data)
            n = len(data)
            if not e.wellposed(e.settings_of(P), data):
                continue
            y = [c % K for c in range(n)]
            r.shuffle(y)
            lab = names(r.choice(KINDS), K)
            lp = shares(e, n, K)
            p = np.array([powers(row) + [7.0] * (5 - K) for row in lp], dtype=float)
            yy = lab[y]
            if e.chance(0.3):
                yy = yy.reshape(-1, 1)
            X = e.X(data)
            keep = (p.copy(), np.array(X), yy.copy())
            err = ""
            try:
                real.fit(p, X, yy)
                ob["fit"] = (K, data, y, lp, lab, p)
            except Exception as ex:
                err, ob["fit"] = f"{type(ex).__name__}: {ex}"[:200], None
            exact = P["exact"] or e.kernel(P["vario"])[1][2] == 0
            log.append({"op": "fit", "o": o, "K": K, "y": [c + 1 for c in y], "lp": lp, "exact": bool(exact), "err": err, "model": ob["model"]})
            if err:
                continue
            log.append({"op": "bad", "o": o, "err": "" if not all(np.array_equal(a, b) for a, b in zip(keep, (p, X, yy))) else "arguments unchanged"})
            if exact:
                # the training samples
                idx = r.sample(range(n), min(n, 6))
                ev = {"op": "train", "o": o, "want": [y[i] + 1 for i in idx], "label": [], "err": ""}
                try:
                    at, total = spread(e, len(idx))
                    pick = [idx[at.index(t)] if t in at else r.randrange(n) for t in range(total)]
                    got = real.predict(p[pick], e.X([data[i] for i in pick]))
                    assert len(got) == total, "one label per sample"
                    ev["label"] = index([got[t] for t in at], lab)
                except Exception as ex:
                    ev["err"] = f"{type(ex).__name__}: {ex}"[:200]
                log.append(ev)
        else:
            K, data, y, lp, lab, _ = ob["fit"]
            cells = [r.choice(e.universe) for _ in range(6)]
            lq = shares(e, len(cells), K)
            q = np.array([powers(row) + [-3.0] * (5 - K) for row in lq], dtype=float)
            at, total = spread(e, len(cells)) if ob["model"] is False else (list(range(len(cells))), len(cells))
            pick = [at.index(t) if t in at else r.randrange(len(cells)) for t in range(total)]
            q = q[pick]
            X = e.X([cells[t] for t in pick])
            kw = {"backend": "loop"} if e.chance(0.3) else {}
            what = "score" if ob["model"] else r.choice(("pred", "pred", "resid", "score"))
            ev = {"op": what, "o": o, "err": "", "lq": lq, "at": [data.index(c) + 1 if c in data else 0 for c in cells], "S": []}
            try:
                if what == "pred":
                    got = real.predict(q, X, **kw)
                    assert len(got) == total, "one label per sample"
                    ev["label"] = index([got[t] for t in at], lab)
                elif what == "resid":
                    res = real.krige_residual(X, **kw)
                    assert len(res) == total, "one residual per sample"
                    inv = np.log2(inverse_ilr_transformation(res)[at])
                    ev["L"] = [[episodes.micro(a - row[0]) for a in row] for row in inv]
                else:
                    got = real.predict(q, X, **kw)
                    assert len(got) == total, "one label per sample"
                    ev["label"] = index(got, lab)
                    ev["y"] = [r.randint(1, K) for _ in pick]
                    yq = lab[[c - 1 for c in ev["y"]]]
                    ev["hits"] = int(round(float(real.score(q, X, yq, **kw)) * total))
            except Exception as ex:
                ev["err"] = f"{type(ex).__name__}: {ex}"[:200]
            if what in ("pred", "resid"):
                ev["S"] = reference(e, P, K, data, y, lp, cells, what)
                if ev["S"] is None:
                    continue
            log.append(ev)
    return log


def spread(e, m):
    """where m samples stand among others, and how many there are"""
    if not e.chance(0.12):
        return list(range(m)), m
    total = e.r.choice((40, 150, 300, 700))
    return sorted(e.r.sample(range(total - 1), m - 1)) + [total - 1], total


def shares(e, n, K):
    """exponents of class probabilities; some samples leave no doubt"""
    sure = e.r.choice((0.0, 0.2, 0.8))
    out = []
    for _ in range(n):
        c = e.r.randrange(K)
        out.append([0 if k == c else FLOOR for k in range(K)] if e.chance(sure) else [e.r.randint(-6, 0) for _ in range(K)])
    return out


FLOOR = -52     # what a zero counts as


def powers(row):
    return [-5000.0 if t == FLOOR else float(t) for t in row]


def index(labels, lab):
    return [next((i + 1 for i, b in enumerate(lab) if a == b), 0) for a in labels]


def reference(e, P, K, data, y, lp, cells, what):
    """kriging of the exponents of label / probability, class by class"""
    import numpy as np

    s = e.settings_of(P, data=data)
    fr = e.fr
    D = np.array([e.actual(p, fr) for p in data])
    Q = np.array([e.actual(p, fr) for p in cells])
    kw = e.vario_kw(s["vario"], fr["ui"])
    kw.update(e.ani_kw(s["ang"], s["sca"]))
    kw["exact_values"] = s["exact"]
    if s["cls"].startswith("uk"):
        kw.update(e.drift_kw(s, fr, {"spec": []}))
    ex = {"backend": "loop"}
    if P["method"].startswith("ordinary") and P["k"]:
        ex["n_closest_points"] = P["k"]
    out = []
    for c in range(K):
        vals = np.array([52.0 * ((y[i] == c) - 1) - lp[i][c] for i in range(len(data))])
        model = e.cls_of(s["cls"])(*D.T, vals, **kw)
        out.append(np.asarray(model.execute("points", *Q.T, **ex)[0]))
    # a common shift of the exponents does not change the composition
    S = np.array(out).T
    S = S - S.max(axis=1, keepdims=True)
    if what == "resid" and S.min() < -900:
        return None
    return [[int(round(max(t, -2000.0) * 1e6)) for t in row] for row in S]


def record(task):
    e = EpE(task["focus"], task["id"], task["seed"])
    return {"events": globals()["ep_" + task["focus"]](e)}


def judge(eps, workers=8):
    import os

    from vlib import build, tlc

    path = os.path.join(build.scratch(), f"comp-{os.getpid()}-{len(os.listdir(build.scratch()))}.json")
    with open(path, "w") as f:
        json.dump(eps, f)
    res = tlc.run("Composition", tlc.cfg(constants={"Mode": "judge", "Top": 1, "Parts": 2, "File": path}), workers=workers)
    os.remove(path)
    return res


def replay(task):
    if "lines" in task:
        return transforms(task)
    g = record(task)
    return {"bad": [r for r in judge([g["events"]], 1).lines if "fails" in r]}


def corrupt(ep):
    for t, ev in enumerate(ep):
        if ev["op"] == "train" and not ev["err"]:
            bad = copy.deepcopy(ep)
            bad[t]["label"][0] = bad[t]["label"][0] % 2 + 1
            return bad
    return None


def check(ck, count, top, parts):
    from vlib import build, pool, tlc

    # the transforms
    res = tlc.run("Composition", tlc.cfg(constants={"Mode": "enumerate", "Top": top, "Parts": parts, "File": ""}, invariants=["Sound"]), heap="6g", timeout=1500)
    lines = res.lines
    step = max(1, len(lines) // 16)
    tasks = [{"lines": lines[a : a + step]} for a in range(0, len(lines), step)]
    for t, r in zip(tasks, pool.run("compose", "transforms", tasks)):
        if "crash" in r:
            ck.violation("[ilr] " + r["crash"][:800], {"suite": "compose", "func": "transforms", "task": {"lines": t["lines"][:50]}})
            continue
        ck.count("compositions", r["n"])
        for name, ln in r["bad"]:
            ck.violation(f"[ilr] {name}: exponents {ln['u']} and {ln['v']}", {"suite": "compose", "func": "transforms", "task": {"lines": [ln]}})
    ck.count("states", res.distinct)
    ck.count("transitions", res.states)
    # classification
    tasks = [{"focus": "classify", "id": i, "seed": ck.seed} for i in range(count)]
    logs = pool.run("compose", "record", tasks)
    good, ids = [], []
    for t, g in zip(tasks, logs):
        if "crash" in g:
            ck.violation(f"[classify] episode {t['id']}: {g['crash']}"[:900], {"suite": "compose", "func": "replay", "task": t})
        elif g["events"]:
            good.append(g["events"])
            ids.append(t)
        else:
            ck.count("contexts_dismissed_as_ill_posed")
    control = next((c for c in map(corrupt, good) if c), None)
    res = judge(good + ([control] if control else []))
    done = {r["ep"] for r in res.lines if "done" in r}
    if len(done) != len(good) + bool(control):
        raise build.Machinery("TLC did not judge every episode")
    fails = {}
    for r in res.lines:
        if "fails" in r:
            if "MACHINERY" in str(r):
                raise build.Machinery(str(r))
            fails.setdefault(r["ep"], []).append(r)
    if control:
        if len(good) + 1 not in fails:
            raise build.Machinery("an altered episode was accepted")
        ck.count("altered_episodes_rejected")
    for k, g in enumerate(good):
        ck.count("episodes_classify")
        ck.count("traces_validated_against_impl")
        ck.count("events_judged", len(g))
        ck.count("labels_judged", sum(len(ev.get("label", ())) for ev in g))
        if k + 1 in fails:
            f = min(fails[k + 1], key=lambda r: r["l"])
            ck.violation(f"[classify] episode {ids[k]['id']} event {f['l']} {json.dumps(g[f['l'] - 1])[:400]}: {f['fails']}", {"suite": "compose", "func": "replay", "task": ids[k]})
    ck.count("states", res.distinct)
    ck.count("transitions", res.states)
    if good:
        ck.sample({"classify": good[len(good) // 2][:3]})
