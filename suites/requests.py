"""Conformance with spec/Requests.tla: what is refused, what is answered.

Every case of the tables is put to the real classes.  Refused means an
exception, before any number is returned; answered means arrays of the
documented shape, with masks and drift arrays read in the orientation the
specification gives.
"""
import random
from concurrent.futures import ThreadPoolExecutor

N = 14
FAULTS = ("first", "last", "volume", "perm", "noswap", "short", "reshape")
FULL = ("mask", "array", "params", "ctor", "gs", "sk")
GIVEN = {"slope": 0.7, "scale": 0.6, "exponent": 1.2, "sill": 2.5, "psill": 2.0, "range": 3.0, "nugget": 0.5}
DICT = {"linear": ("slope", "nugget"), "power": ("scale", "exponent", "nugget")}
LIST = {"linear": (0.7, 0.5), "power": (0.6, 1.2, 0.5)}

_made = {}


def data(three, geo=False):
    import numpy as np

    r = np.random.RandomState(5)
    c = [r.uniform(0, 10, N) for _ in range(3 if three else 2)]
    v = np.sin(c[0]) + c[1] / 3 + r.normal(size=N)
    if geo:
        c = [r.uniform(-170, 170, N), r.uniform(-70, 70, N)]
    return c, v


def klass(cls):
    import pykrige

    return {"ok": pykrige.OrdinaryKriging, "uk": pykrige.UniversalKriging,
            "ok3d": pykrige.OrdinaryKriging3D, "uk3d": pykrige.UniversalKriging3D}[cls]


def curve(m, d):
    return m[0] * d / (d + m[1])


def points(cls, geo=False):
    """two places to estimate at"""
    import numpy as np

    p = [np.array([2.3, 7.1]), np.array([4.4, 0.9]), np.array([1.7, 8.8])]
    if geo:
        p = [np.array([12.5, -140.0]), np.array([33.0, -21.0])]
    return p[: 3 if cls.endswith("3d") else 2]


def spec_at(t, c):
    """a specified drift as a function of place"""
    return c[0] * c[1] / 20.0 if t == 0 else (c[0] - 4.0) ** 2 / 10.0


def request_object(c):
    key = (c["cls"], c["geo"], c["model"], c["terms"])
    if key not in _made:
        co, v = data(c["cls"].endswith("3d"), c["geo"])
        kw = dict(variogram_model="exponential", variogram_parameters=[2.0, 4.0, 0.3])
        if c["geo"]:
            kw.update(coordinates_type="geographic", variogram_parameters=[2.0, 60.0, 0.3])
        if c["model"] == "custom":
            kw.update(variogram_model="custom", variogram_function=curve)
        if c["terms"]:
            kw.update(drift_terms=["specified"], specified_drift=[spec_at(t, co) for t in range(c["terms"])])
        _made[key] = klass(c["cls"])(*co, v, **kw)
    return _made[key]


def request(c, want):
    import numpy as np

    r = random.Random(repr(sorted((k, str(v)) for k, v in c.items())))
    o = request_object(c)
    d = len(c["sz"])
    axes = []
    for n, (lo, hi) in zip(c["sz"], [(-150, 150), (-60, 60)] if c["geo"] else [(0.3, 9.7)] * 3):
        axes.append(np.array([lo + (hi - lo) * r.random() for _ in range(n)]))
    give = []
    for a in axes:
        form = r.choice(("array", "array", "list", "column"))
        give.append(list(a) if form == "list" else a[:, None] if form == "column" else a)
    kw = {"backend": c["backend"]}
    if c["win"]:
        kw["n_closest_points"] = c["win"]
    if c["mask"]:
        kw["mask"] = np.array([r.random() < 0.3 for _ in range(int(np.prod(c["mask"])))]).reshape(c["mask"])
    grid = c["style"] != "points"
    if grid:
        g = np.meshgrid(*axes[::-1], indexing="ij")[::-1]
    else:
        g = axes
    answer = want["verdict"] == "answer"
    if c["terms"] or r.random() < 0:
        arrays = []
        for t, sh in enumerate(c["arrays"]):
            how = want["arrays"][t]
            if how in ("asis", "swapped", "column") and (grid or len({len(a) for a in axes}) == 1):
                a = spec_at(t % 2, g)
                if grid and how == "swapped":
                    a = np.transpose(a)
                arrays.append(np.array(a).reshape(sh))
            else:
                arrays.append(np.array([r.random() for _ in range(int(np.prod(sh)))]).reshape(sh))
        w = c["wrap"]
        if w != "none":
            kw["specified_drift_arrays"] = arrays if w == "list" else tuple(arrays) if w == "tuple" else np.array(arrays[0] if arrays else [1.0])
    try:
        z, s = o.execute(c["style"], *give, **kw)
        # reading the answer may be what fails for an inconsistent mask
        z, s = (np.ma.array(z), np.ma.array(s)) if np.ma.isMaskedArray(z) else (np.asarray(z), np.asarray(s))
    except Exception as ex:
        return f"not answered: {type(ex).__name__}: {str(ex)[:120]}" if answer else None
    if want["verdict"] == "refuse":
        return "answered with numbers"
    if not answer:
        return None
    sh = tuple(want["shape"])
    if z.shape != sh or s.shape != sh:
        return f"the answer has the shapes {z.shape} and {s.shape}, not {sh}"
    keep = np.ones(sh, dtype=bool)
    if c["style"] == "masked":
        if not (np.ma.isMaskedArray(z) and np.ma.isMaskedArray(s)):
            return "the answer to a masked request is not masked"
        m = kw["mask"] if want["mask"] == "asis" else np.transpose(kw["mask"])
        if not (np.array_equal(np.ma.getmaskarray(z), m) and np.array_equal(np.ma.getmaskarray(s), m)):
            return "the answer is not masked where the mask says so"
        keep = ~m
    elif np.ma.isMaskedArray(z) and np.ma.getmaskarray(z).any():
        return "an answer to a request without mask is masked"
    if not keep.any():
        return None
    at = [np.asarray(a)[keep] for a in g]
    k2 = {"backend": "loop"}
    if c["win"]:
        k2["n_closest_points"] = c["win"]
    if c["terms"]:
        k2["specified_drift_arrays"] = [spec_at(t, at) for t in range(c["terms"])]
    z0, s0 = o.execute("points", *at, **k2)
    zz, ss = np.asarray(z)[keep], np.asarray(s)[keep]
    if not (np.all(np.isfinite(zz)) and np.all(np.isfinite(ss))):
        return "the answer is not finite"
    big = max(1.0, float(np.abs(z0).max()), float(np.abs(s0).max()))
    if np.abs(zz - z0).max() > 1e-7 * big or np.abs(ss - s0).max() > 1e-7 * big:
        return "the cells of the answer are not those of a request for their points"
    return None


def answered(o, cls, geo=False, **kw):
    """None when o answers a plain request"""
    import numpy as np

    z, s = o.execute("points", *points(cls, geo), **kw)
    if np.shape(z) != (2,) or np.shape(s) != (2,):
        return f"the answer has the shapes {np.shape(z)} and {np.shape(s)}"
    if not (np.all(np.isfinite(z)) and np.all(np.isfinite(s))):
        return "the answer is not finite"
    return None


class Changed(Exception):
    """a complaint whatever the verdict"""


def outcome(want, fn):
    """fn() constructs and asks; returns a complaint or None"""
    try:
        bad = fn()
    except Changed as ex:
        return str(ex)[:200]
    except Exception as ex:
        if want["verdict"] == "answer":
            return f"not answered: {type(ex).__name__}: {str(ex)[:120]}"
        return None
    if want["verdict"] == "refuse":
        return "answered with numbers"
    return bad


def built(c, kw, co=None, v=None):
    """an object with these settings, by construction or by update"""
    import numpy as np

    if co is None:
        co, v = data(c["cls"].endswith("3d"), kw.get("coordinates_type") == "geographic")
    if c.get("how") in ("update", "again"):
        first = {k: kw[k] for k in kw if k == "coordinates_type"}
        geo = first.get("coordinates_type") == "geographic"
        if c["how"] == "again":
            # from a covariance model to the next one
            import gstools

            g = {"latlon": True} if geo else {"dim": 3 if c["cls"].endswith("3d") else 2}
            first["variogram_model"] = gstools.Spherical(var=1.5, nugget=0.1, len_scale=0.4 if geo else 4.0, **g)
        else:
            first.update(variogram_model="linear", variogram_parameters=[1.0, 0.1])
        o = klass(c["cls"])(*co, v, **first)
        before = o.execute("points", *points(c["cls"], geo))
        try:
            o.update_variogram_model(**{k: kw[k] for k in kw if k != "coordinates_type"})
        except Exception as ex:
            try:
                after = o.execute("points", *points(c["cls"], geo))
            except Exception as e2:
                raise Changed(f"after a refused update: {type(e2).__name__}: {e2}")
            if not all(np.allclose(a, b, rtol=1e-9, atol=1e-9) for a, b in zip(before, after)):
                raise Changed("a refused update has changed the answers")
            raise ex
        return o
    return klass(c["cls"])(*co, v, **kw)


def params(c, want):
    import numpy as np

    r = random.Random(repr(sorted((k, str(v)) for k, v in c.items())))
    m = c["model"]
    kw = {"variogram_model": m}
    if m == "custom":
        kw["variogram_function"] = curve
    exact = DICT.get(m, ("psill", "range", "nugget"))
    if c["kind"] == "dict":
        keys = sorted(c["keys"])
        r.shuffle(keys)
        kw["variogram_parameters"] = {k: GIVEN[k] for k in keys}
    elif c["kind"] == "list":
        full = list(LIST.get(m, (2.5, 3.0, 0.5))) + [0.2, 0.1, 0.3]
        kw["variogram_parameters"] = full[: c["len"]]
    elif c["kind"] == "text":
        kw["variogram_parameters"] = "1.0, 2.0, 0.5"
    elif c["kind"] == "number":
        kw["variogram_parameters"] = 2.0
    elif c["kind"] == "set":
        kw["variogram_parameters"] = {2.5, 3.0, 0.5}

    def fn():
        o = built(c, kw)
        bad = answered(o, c["cls"])
        if bad or c["kind"] == "nothing" or want["verdict"] == "refuse":
            return bad
        mean = [GIVEN[k] for k in exact]
        if not np.allclose(list(o.variogram_model_parameters), mean, rtol=1e-12, atol=0):
            return f"the parameters in force are {list(o.variogram_model_parameters)}, not {mean}"
        key = ("params", c["cls"], m)
        if key not in _made:
            ref = list(mean) if m in DICT else [mean[0] + mean[2]] + mean[1:]
            co, v = data(c["cls"].endswith("3d"))
            _made[key] = klass(c["cls"])(*co, v, variogram_model=m, variogram_parameters=ref).execute("points", *points(c["cls"]))
        got = o.execute("points", *points(c["cls"]))
        for a, b in zip(got, _made[key]):
            if not np.allclose(a, b, rtol=1e-9, atol=1e-9):
                return "the answer is not the one for the same model in a list"
        return None

    return outcome(want, fn)


def ctor(c, want):
    import numpy as np

    m = {"none": None, "number": 3}.get(c["model"], c["model"])
    kw = {"variogram_model": m}
    f = {"none": None, "callable": curve, "text": "curve"}[c["fn"]]
    if f is not None:
        kw["variogram_function"] = f
    if m == "custom":
        kw["variogram_parameters"] = [2.0, 3.0]
    elif m == "linear":
        kw["variogram_parameters"] = [0.7, 0.5]
    elif m == "power":
        kw["variogram_parameters"] = [0.6, 1.2, 0.5]
    elif m:
        kw["variogram_parameters"] = [2.5, 3.0, 0.5]
    if c["ctype"] != "euclidean":
        kw["coordinates_type"] = None if c["ctype"] == "none" else c["ctype"]
    if c["how"] == "new":
        kw["pseudo_inv"] = c["pinv"]
        if c["ptype"] != "pinv":
            kw["pseudo_inv_type"] = None if c["ptype"] == "none" else c["ptype"]
        kw["exact_values"] = {"true": True, "false": False, "one": 1, "text": "True", "none": None}[c["exact"]]
    co, v = data(c["cls"].endswith("3d"), c["ctype"] == "geographic")
    arrays = co + [v]
    if c["short"] > 0:
        arrays[c["short"] - 1] = arrays[c["short"] - 1][:-1]
    elif c["short"] < 0:
        arrays[-1] = np.append(v, 1.0)

    def fn():
        o = built(c, kw, arrays[:-1], arrays[-1])
        return answered(o, c["cls"], c["ctype"] == "geographic")

    return outcome(want, fn)


def bend(x, y, *z):
    return x * y / 10.0


def bow(x, y, *z):
    return (x - 5.0) ** 2 / 10.0


def drift(c, want):
    import numpy as np

    seed = random.Random(repr(sorted((k, str(v)) for k, v in c.items()))).randrange(10**6)
    r = np.random.RandomState(seed)
    co, v = data(c["cls"].endswith("3d"))
    kw = {"variogram_model": "exponential", "variogram_parameters": [2.0, 4.0, 0.3]}
    terms = list(c["terms"])
    random.Random(seed).shuffle(terms)
    kw["drift_terms"] = terms
    if c["cls"] == "uk":
        axis = lambda t, n: np.linspace(lo, hi, n)
        lo, hi = (-1.0, 11.0) if c["covers"] else ((2.0, 11.0) if seed % 2 else (-1.0, 8.0))
        if c["ext"]:
            kw["external_drift"] = r.normal(size=c["ext"])
        if not c["covers"]:
            # far outside, or only just
            near = (None, 1e-6, 0.01, 0.09)[seed // 7 % 4]
            if near:
                axis = lambda t, n: np.linspace(min(co[t]) + near, 11.0, n) if seed % 2 else np.linspace(-1.0, max(co[t]) - near, n)
        which = seed % 3 if not c["covers"] else 2
        if c["ex"]:
            kw["external_drift_x"] = axis(0, c["ex"]) if which != 0 else np.linspace(-1, 11, c["ex"])
        if c["ey"]:
            kw["external_drift_y"] = axis(1, c["ey"]) if which != 1 else np.linspace(-1, 11, c["ey"])
        for t, a in enumerate(("external_drift", "external_drift_x", "external_drift_y")):
            if a in kw and (seed >> t) % 3 == 0:
                kw[a] = kw[a].tolist()
        if c["wells"]:
            w = np.array([[3.21, 6.54, 1.5, 1.0], [8.7, 1.23, -2.0, 2.0], [5.1, 9.4, 0.7, 3.0]])
            w = w[: c["wells"][0]] if len(c["wells"]) == 2 else w[0]
            kw["point_drift"] = w[..., : c["wells"][-1]]
    on = lambda t: t in terms
    spec = [np.concatenate([spec_at(t, co)] * 3)[:n] for t, n in enumerate(c["spec"])]
    if on("specified") and c["specwrap"] != "none":
        kw["specified_drift"] = {"list": spec, "bare": spec[0], "tuple": tuple(spec), "empty": []}[c["specwrap"]]
    fun = [bend, bow][: c["fun"]]
    if on("functional") and c["funwrap"] != "none":
        kw["functional_drift"] = {"list": fun, "bare": bend, "empty": [], "wrong": ["x * y"]}[c["funwrap"]]

    def fn():
        o = klass(c["cls"])(*co, v, **kw)
        p = points(c["cls"])
        more = {"specified_drift_arrays": [spec_at(t, p) for t in range(len(c["spec"]))]} if on("specified") else {}
        bad = None
        for b in ("vectorized", "loop"):
            bad = bad or answered(o, c["cls"], backend=b, **more)
        return bad

    return outcome(want, fn)


def cover(c, want):
    import numpy as np

    seed = random.Random(repr(sorted((k, str(v)) for k, v in c.items()))).randrange(10**6)
    r = np.random.RandomState(seed)
    ax, ay = np.array(c["ax"], dtype=float), np.array(c["ay"], dtype=float)
    unit = lambda a: (a - a.min()) / (a.max() - a.min())
    (x, y), v = data(False)
    x, y = ax.min() + unit(x) * (ax.max() - ax.min()), ay.min() + unit(y) * (ay.max() - ay.min())
    o = klass("uk")(x, y, v, variogram_model="exponential", variogram_parameters=[2.0, 4.0, 0.3], drift_terms=["external_Z"],
                    external_drift=r.normal(size=(len(ay), len(ax))), external_drift_x=ax, external_drift_y=ay)
    xs, ys = np.array(c["xs"], dtype=float) / 1e6, np.array(c["ys"], dtype=float) / 1e6
    kw = {"mask": np.array(c["mask"], dtype=bool)} if c["mask"] else {}

    def fn():
        z, s = o.execute(c["style"], xs, ys, backend=c["backend"], **kw)
        if c["style"] == "points":
            return None if np.all(np.isfinite(z)) and np.all(np.isfinite(s)) else "the answer is not finite"
        keep = ~np.ma.getmaskarray(np.ma.array(z))
        if want["verdict"] == "refuse" or not keep.any():
            return None
        gx, gy = np.meshgrid(xs, ys)
        z0, s0 = o.execute("points", gx[keep], gy[keep], backend="loop")
        if not (np.allclose(np.asarray(z)[keep], z0, rtol=1e-7, atol=1e-7) and np.allclose(np.asarray(s)[keep], s0, rtol=1e-7, atol=1e-7)):
            return "the cells of the answer are not those of a request for their points"
        return None

    return outcome(want, fn)


class LooksLike:
    """has the attributes of a covariance model, but is none"""

    pykrige_kwargs, pykrige_anis, pykrige_angle = {}, 1.0, 0.0
    pykrige_anis_y = pykrige_anis_z = 1.0
    pykrige_angle_x = pykrige_angle_y = pykrige_angle_z = 0.0

    def __init__(self, dim, latlon):
        self.dim, self.latlon, self.field_dim = dim, latlon, 2 if latlon else dim

    def pykrige_vario(self, args=None, r=0):
        return r / (r + 1.0)


def gs(c, want):
    import gstools

    if c["cls"] != "ok" and c["ctype"] != "euclidean":
        return None
    geo = c["ctype"] == "geographic"
    kw = {"coordinates_type": "geographic"} if geo else {}
    if not c["real"]:
        kw["variogram_model"] = LooksLike(c["dim"], c["latlon"])
    elif c["latlon"]:
        kw["variogram_model"] = gstools.Exponential(latlon=True, var=2.0, len_scale=0.8, nugget=0.3)
    else:
        kw["variogram_model"] = gstools.Exponential(dim=c["dim"], var=2.0, len_scale=3.0, nugget=0.3)
    return outcome(want, lambda: answered(built(c, kw), c["cls"], geo))


def sk(c, want):
    import numpy as np
    from pykrige.ck import ClassificationKriging
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging
    from sklearn.linear_model import LinearRegression, LogisticRegression
    from sklearn.preprocessing import StandardScaler

    r = np.random.RandomState(7)
    x, q = r.uniform(0, 10, (N, 4)), r.uniform(0, 10, (3, 4))
    y = np.sin(x[:, 0]) + x[:, 1] / 4
    model = {"regressor": LinearRegression(), "classifier": LogisticRegression(), "transformer": StandardScaler(),
             "class": LinearRegression if c["what"] == "rk" else LogisticRegression, "none": None, "text": "linear", "": None}[c["model"]]
    method = None if c["method"] == "none" else c["method"]

    def fn():
        if c["what"] in ("method", "fit"):
            k = Krige(method=method, variogram_model="exponential", variogram_parameters=[2.0, 4.0, 0.3])
            d = 3 if c["what"] == "method" and method in ("ordinary3d", "universal3d") else None
            if c["fitted"]:
                k.fit(x[:, : d or c["cols"]], y)
            z = k.predict(q[:, : d or c["ask"]])
        else:
            kw = dict(method=method, variogram_model="exponential")
            if c["what"] == "rk":
                k = RegressionKriging(regression_model=model, **kw)
                k.fit(x[:, 2:], x[:, :2], y)
            else:
                k = ClassificationKriging(classification_model=model, **kw)
                k.fit(x[:, 2:], x[:, :2], (y > 1).astype(int))
            z = k.predict(q[:, 2:], q[:, :2])
        z = np.asarray(z)
        if z.shape[:1] != (3,):
            return f"the answer has the shape {z.shape}"
        if not np.all(np.isfinite(z)):
            return "the answer is not finite"
        return None

    return outcome(want, fn)


def batch(task):
    import contextlib
    import io

    import numpy as np

    fn = {"mask": request, "array": request, "request": request, "params": params, "ctor": ctor, "drift": drift, "cover": cover, "gs": gs, "sk": sk}[task["table"]]
    out = []
    with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        for item in task["items"]:
            out.append(fn(item["case"], item["want"]))
    return out


def emit(table, count, seed):
    from vlib import tlc

    return tlc.run("Requests", tlc.cfg(constants=dict(Mode="emit", Table=table, Faults="={}", Size=3, Lo=1, Hi=count, Seed=seed)), workers=2)


def check(ck, tables, count):
    from vlib import build, pool, tlc

    base = dict(Mode="check", Table="shapes", Size=3 if not ck.thorough else 4, Lo=1, Hi=1, Seed=1)

    def shapes(f):
        return f, tlc.run("Requests", tlc.cfg(constants=dict(base, Faults="={%s}" % (f and '"%s"' % f)), invariants=["ShapesAgree"]),
                          workers=2, expect_violation=bool(f))

    with ThreadPoolExecutor(4) as ex:
        grids = list(ex.map(shapes, ("",) + FAULTS)) if "request" in tables else []
        rows = list(ex.map(lambda t: emit(t, count, ck.seed), tables))
    for f, res in grids:
        if f and "ShapesAgree" not in res.violated:
            raise build.Machinery(f"the fault {f} goes unnoticed in Requests.tla")
        if not f and res.violated:
            raise build.Machinery("Requests.tla: the test of shapes is not the declared one")
        ck.count("negative_controls" if f else "states", 1 if f else res.distinct)
    tasks = []
    for t, res in zip(tables, rows):
        ck.count("states", res.distinct)
        items = sorted(res.lines, key=lambda x: repr(x["case"]))
        if t not in FULL and len(items) != count:
            raise build.Machinery("TLC did not emit every case")
        ck.sample({"table": t, "case": items[len(items) // 3]})
        ck.count("cases_" + t, len(items))
        n = 40 if t != "sk" else 10
        tasks += [{"table": t, "items": items[i:i + n]} for i in range(0, len(items), n)]
    shown = {}
    for task, got in zip(tasks, pool.run("requests", "batch", tasks)):
        if isinstance(got, dict):
            ck.violation(f"[requests] {task['table']}: {got['crash']}"[:900], {"suite": "requests", "func": "batch", "task": task})
            continue
        for item, bad in zip(task["items"], got):
            v = item["want"]["verdict"]
            ck.count("expected_" + v)
            ck.count("traces_validated_against_impl")
            if bad:
                key = (task["table"], bad[:60])
                shown[key] = shown.get(key, 0) + 1
                if shown[key] <= 3:
                    why = ", ".join(sorted(item["want"]["why"]))
                    ck.violation(f"[requests] {task['table']} {item['case']}: expected {v}{' (' + why + ')' if why else ''}, but {bad}"[:900],
                                 {"suite": "requests", "func": "batch", "task": {"table": task["table"], "items": [item]}})
