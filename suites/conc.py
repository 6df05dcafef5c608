"""Schedules of spec/Conc.tla on the real classes.

Each schedule says which thread goes on at every call of a user-supplied
variogram or drift function, and where such a function starts a request of
its own; the slices schedules interrupt a thread after a given part of the
lines of PyKrige it executes.  Every request has to return what it returns
alone, and the objects have to answer the same afterwards.
"""
import random
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

CONTROLS = (("points",), ("rhs",), ("mask",), ("matrix", "class"))
# how long to wait for a thread that may be waiting for another one; less when
# that turns out to be common (requests that take turns)
PATIENCE = [2.0] * 3 + [0.3] * 10 + [0.05]

_here = threading.local()


def called():
    """a user-supplied function is being evaluated"""
    ctl = getattr(_here, "ctl", None)
    if ctl is not None:
        ctl.pause(_here.thread)


class Curve:
    def __call__(self, m, d):
        import numpy as np

        called()
        return m[0] * (1 - np.exp(-np.asarray(d) / m[1])) + m[2]


class Bend:
    def __init__(self, k):
        self.k = k

    def __call__(self, x, y, *z):
        called()
        return x * y / 10.0 if self.k == 0 else (x - 5.0) ** 2 / 10.0


class World:
    """objects and requests of one schedule, the same whenever it is made"""

    def __init__(self, task):
        self.task = task
        self.r = random.Random(f"conc/{task['seed']}/{task['id']}")
        kinds = ["ok", "geo", "uk", "uk", "ok3d", "uk3d", "uk3d"]
        if task["mode"] == "slices":
            kinds += ["geo", "geo"]
        self.kinds = [self.r.choice(kinds) for _ in range(2)]
        if self.r.random() < 0.6:
            self.kinds[1] = self.kinds[0]
        self.user = task["mode"] == "calls"
        self.plan = {}

    def setting(self, o):
        import numpy as np

        kind = self.kinds[o]
        rs = np.random.RandomState(self.r_of("data", o))
        rr = random.Random(self.r_of("setting", o))
        three = kind.endswith("3d")
        n = rr.choice((5, 6, 8))
        c = [rs.uniform(0, 10, n) for _ in range(3 if three else 2)]
        if kind == "geo":
            c = [rs.uniform(-170, 170, n), rs.uniform(-70, 70, n)]
        v = rs.normal(size=n)
        kw = dict(variogram_parameters=[1.0 + o, 4.0 if kind != "geo" else 60.0, 0.2 + 0.1 * o])
        if self.user:
            kw.update(variogram_model="custom", variogram_function=Curve())
        else:
            kw.update(variogram_model=rr.choice(("exponential", "spherical", "gaussian")))
        if kind in ("uk", "uk3d"):
            terms = []
            if rr.random() < 0.7 or self.user:
                terms.append("functional")
                kw["functional_drift"] = [Bend(k) for k in range(rr.choice((1, 1, 2)) if n > 5 else 1)]
            if rr.random() < 0.4:
                terms.append("specified")
                kw["specified_drift"] = [c[0] ** 2 / 20.0]
            if kind == "uk" and rr.random() < 0.4:
                terms.append("external_Z")
                kw.update(external_drift=rs.normal(size=(3, 4)), external_drift_x=np.linspace(-1, 11, 4), external_drift_y=np.linspace(-1, 11, 3))
            kw["drift_terms"] = terms
        if three and rr.random() < 0.5:
            kw.update(anisotropy_scaling_z=2.0, anisotropy_angle_x=30.0)
        elif kind in ("ok", "uk") and rr.random() < 0.5:
            kw.update(anisotropy_scaling=3.0, anisotropy_angle=40.0)
        if rr.random() < 0.3:
            kw["exact_values"] = False
        if rr.random() < 0.2:
            kw["pseudo_inv"] = True
        return kind, c, v, kw

    def r_of(self, *a):
        return random.Random(f"{self.task['seed']}/{self.task['id']}/{a}").randrange(2**31)

    def make(self, o):
        import pykrige

        kind, c, v, kw = self.setting(o)
        cls = {"ok": pykrige.OrdinaryKriging, "geo": pykrige.OrdinaryKriging, "uk": pykrige.UniversalKriging,
               "ok3d": pykrige.OrdinaryKriging3D, "uk3d": pykrige.UniversalKriging3D}[kind]
        if kind == "geo":
            kw["coordinates_type"] = "geographic"
        return cls(*c, v, **kw)

    def request(self, frame, o):
        """the request of a frame, on object o"""
        import numpy as np

        kind, c, v, kw = self.setting(o)
        rr = random.Random(self.r_of("request", frame))
        rs = np.random.RandomState(self.r_of("points", frame))
        style = rr.choice(("points", "points", "grid", "masked"))
        three = kind.endswith("3d")
        d = 3 if three else 2
        sz = [rr.choice((2, 3))] * d if style == "points" else [2, 2, 1][:d]
        if style == "masked":
            sz = [2, 3, 1][:d]
        lo, hi = ((-150, 150), (-60, 60)) if kind == "geo" else ((0.2, 9.8), (0.2, 9.8))
        ax = [rs.uniform(lo[0] if i == 0 else hi[0] if kind == "geo" else 0.2, lo[1] if i == 0 else hi[1] if kind == "geo" else 9.8, n) for i, n in enumerate(sz)]
        if rr.random() < 0.3 and style == "points":
            for a, b in zip(ax, c):
                a[0] = b[0]  # on a data point
        out = {"backend": rr.choice(("loop", "loop", "vectorized"))}
        if kind in ("ok", "geo", "ok3d") and rr.random() < 0.3:
            out = {"backend": "loop", "n_closest_points": rr.choice((3, 4))}
        if kind in ("ok", "geo") and not self.user and rr.random() < 0.3:
            out["backend"] = "C"
        if style == "masked":
            out["mask"] = rs.uniform(size=sz[::-1]) < 0.4
        if "specified" in kw.get("drift_terms", ()):
            g = ax if style == "points" else np.meshgrid(*ax[::-1], indexing="ij")[::-1]
            out["specified_drift_arrays"] = [g[0] ** 2 / 20.0]
        return style, ax, out

    def job(self, objs, frame, o):
        """what a frame does: a function without arguments"""
        what = "request"
        if not self.user and o == 1 and self.task.get("other"):
            what = random.Random(self.r_of("job", frame)).choice(("request", "request", "new", "update"))
        if what == "request":
            style, ax, kw = self.request(frame, o)
            return lambda: objs[o].execute(style, *ax, **kw)

        def do():
            if what == "new":
                x = self.fitted(o)
            else:
                x = self.make(o)
                kind = self.kinds[o]
                ani = {} if kind == "geo" else {"anisotropy_scaling": 2.0} if not kind.endswith("3d") else {"anisotropy_scaling_y": 2.0}
                x.update_variogram_model("linear", [1.0, 0.3], **ani)
            style, ax, kw = self.request(frame, o)
            return x.execute(style, *ax, **kw)

        return do

    def fitted(self, o):
        import pykrige

        kind, c, v, kw = self.setting(o)
        cls = {"ok": pykrige.OrdinaryKriging, "geo": pykrige.OrdinaryKriging, "uk": pykrige.UniversalKriging,
               "ok3d": pykrige.OrdinaryKriging3D, "uk3d": pykrige.UniversalKriging3D}[kind]
        if kind == "geo":
            kw["coordinates_type"] = "geographic"
        kw["variogram_parameters"] = None
        kw["variogram_model"] = "spherical"
        kw["nlags"] = 4
        return cls(*c, v, **kw)


class Control:
    def __init__(self, n):
        self.go = {t: threading.Semaphore(0) for t in range(1, n + 1)}
        self.arrived = {t: threading.Event() for t in range(1, n + 1)}
        self.order = {t: None for t in self.go}
        self.over = set()
        self.free = False

    def pause(self, t):
        while True:
            self.arrived[t].set()
            if not self.free:
                self.go[t].acquire()
            order, self.order[t] = self.order[t], None
            if order is None:
                return
            order()

    def release(self, t, order=None):
        """let t go on to its next pause; False when it is not to be had"""
        if t in self.over or not self.arrived[t].is_set():
            return False
        self.arrived[t].clear()
        self.order[t] = order
        self.go[t].release()
        self.wait(t)
        return True

    def wait(self, t):
        if not self.arrived[t].wait(PATIENCE[0]) and len(PATIENCE) > 1:
            del PATIENCE[0]

    def drain(self, threads):
        """let everything run on, in turn"""
        for _ in range(100000):
            live = [t for t in self.go if t not in self.over]
            if not live:
                return True
            moved = False
            for t in live:
                moved = self.release(t) or moved
            if not moved:
                for t in live:
                    threads[t].join(0.2)
                self.idle = getattr(self, "idle", 0) + 1
                if self.idle > 40:
                    return False
            else:
                self.idle = 0
        return False


class Tracer:
    """pauses its thread after given numbers of lines of PyKrige"""

    def __init__(self, ctl, t):
        self.ctl, self.t, self.n, self.stop = ctl, t, 0, None

    def __call__(self, frame, event, arg):
        if "/pkg/pykrige/" not in frame.f_code.co_filename:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.stop is not None and self.n >= self.stop:
                self.stop = None
                self.ctl.pause(self.t)
        return self.line


def same(a, b):
    import numpy as np

    if a is None or b is None:
        return False
    for x, y in zip(a, b):
        x, y = np.ma.array(x), np.ma.array(y)
        if x.shape != y.shape or not np.array_equal(np.ma.getmaskarray(x), np.ma.getmaskarray(y)):
            return False
        u, v = x.filled(0.0), y.filled(0.0)
        if not np.allclose(u, v, rtol=1e-9, atol=1e-9 * max(1.0, float(np.abs(v).max(initial=0)))):
            return False
    return True


def replay(task):
    import contextlib
    import io
    import warnings

    import numpy as np

    w = World(task)
    bad, compared = [], 0
    with np.errstate(all="ignore"), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        _here.ctl = None
        moves = task["moves"]
        plan = {i + 1: p - 1 for i, p in enumerate(task["plan"])}
        n = len(plan)
        frames = dict(plan)
        nests = [m for m in moves if task["mode"] == "calls" and m[1] > 0]
        for i, m in enumerate(nests):
            frames[n + 1 + i] = m[1] - 1
        solo, lines = {}, {}
        for f, o in frames.items():
            objs = [w.make(0), w.make(1)]
            job = w.job(objs, f, o)
            if task["mode"] == "slices":
                tr = Tracer(None, 0)
                old = sys.gettrace()
                sys.settrace(tr)
                try:
                    solo[f] = job()
                finally:
                    sys.settrace(old)
                lines[f] = tr.n
            else:
                solo[f] = job()
        objs = [w.make(0), w.make(1)]
        ctl = Control(n)
        results, threads, tracers = {}, {}, {}

        def body(t):
            _here.ctl, _here.thread = (ctl, t) if task["mode"] == "calls" else (None, t)
            job = w.job(objs, t, plan[t])
            ctl.pause(t)
            if task["mode"] == "slices":
                sys.settrace(tracers[t])
            try:
                results[t] = job()
            except BaseException as ex:
                results[t] = ex
            finally:
                sys.settrace(None)
                ctl.over.add(t)
                ctl.arrived[t].set()

        for t in plan:
            tracers[t] = Tracer(ctl, t)
            threads[t] = threading.Thread(target=body, args=(t,), daemon=True)
            threads[t].start()
            ctl.wait(t)
        done_nests = [0]

        def nested(o):
            f = n + 1 + done_nests[0]
            done_nests[0] += 1

            def order():
                job = w.job(objs, f, o)
                try:
                    results[f] = job()
                except BaseException as ex:
                    results[f] = ex

            return order

        if task["mode"] == "calls":
            for t in plan:
                ctl.release(t)  # to the first call
            for t, o in moves:
                if o == 0:
                    ctl.release(t)
                elif t not in ctl.over and ctl.arrived[t].is_set():
                    ctl.release(t, nested(o - 1))
        else:
            for t, pct in moves:
                tracers[t].stop = max(1, lines[t] * pct // 100)
                ctl.release(t)
            for t in (2 if len(moves) % 2 else 1, 1 if len(moves) % 2 else 2):
                tracers[t].stop = None
                ctl.release(t)
        ended = ctl.drain(threads)
        for t in threads:
            threads[t].join(5.0 if ended else 0.1)
        hung = False
        if not ended or any(x.is_alive() for x in threads.values()):
            ctl.free = hung = True
            bad.append("the requests did not come to an end")
        for f, got in results.items():
            o = frames[f]
            what = f"request {f} on object {o + 1} ({w.kinds[o]}) "
            compared += 1
            if isinstance(got, BaseException):
                bad.append(what + f"failed: {type(got).__name__}: {got}"[:200])
            elif not same(got, solo[f]):
                bad.append(what + "does not return what it returns alone")
        if not bad:
            for f, o in frames.items():
                compared += 1
                if not same(w.job(objs, f, o)(), solo[f]):
                    bad.append(f"afterwards, object {o + 1} ({w.kinds[o]}) no longer answers as before")
                    break
    return {"bad": bad, "compared": compared, **({"hung": True} if hung else {})}


def check(ck, per=1):
    from vlib import build, pool, tlc

    deep = ck.thorough

    def tl(mode, threads, cells, objects, nests, faults=(), spec="SpecR", inv=("NonInterference", "NothingLeft"), slices=3, grain=10):
        return tlc.run("Conc", tlc.cfg(spec=spec, constants=dict(
            Mode=mode, Threads="={%s}" % ", ".join(str(i + 1) for i in range(threads)), Cells=cells, Objects=objects, Nests=nests,
            Faults="={%s}" % ", ".join(f'"{f}"' for f in faults), Slices=slices, Grain=grain), invariants=inv),
            workers=2, expect_violation=bool(faults), timeout=3000)

    jobs = [("check", 2, 2, 2, 2), ("check", 3, 2, 2, 1)] if not deep else [("check", 2, 3, 2, 2), ("check", 3, 2, 3, 1), ("check", 1, 2, 2, 4)]
    ctrl = [("check", 2, 2, 2, 0, f, "SpecR", ("NonInterference",)) for f in CONTROLS]
    ctrl += [("check", 1, 2, 2, 1, f, "SpecR", ("NonInterference",)) for f in CONTROLS]
    emits = [("emit", 2, 3, 2, 0), ("emit", 2, 1, 2, 1), ("emit", 3, 1, 2, 0), ("emit", 1, 2, 2, 2)]
    if deep:
        emits += [("emit", 2, 2, 2, 1), ("emit", 1, 2, 2, 3)]
    sl = [("slices", 2, 1, 1, 0, (), "SpecS", (), 3, 10)] + ([("slices", 2, 1, 1, 0, (), "SpecS", (), 4, 10)] if deep else [])
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda a: tl(*a), jobs + ctrl + emits + sl))
    for a, r in zip(jobs, res):
        if r.violated:
            raise build.Machinery("Conc.tla violates its own obligation")
        ck.count("states", r.distinct)
        ck.count("transitions", r.states)
    for a, r in zip(ctrl, res[len(jobs):]):
        if "NonInterference" not in r.violated:
            raise build.Machinery(f"the fault {a[5]} goes unnoticed in Conc.tla")
        ck.count("negative_controls")
    tasks = []
    for a, r in zip(emits, res[len(jobs) + len(ctrl):]):
        lines = sorted(r.lines, key=lambda x: repr(x["moves"]))
        if not lines:
            raise build.Machinery("TLC emitted no schedule")
        ck.count("states", r.distinct)
        for i, x in enumerate(lines):
            for k in range(per):
                tasks.append({"mode": "calls", "id": f"{a[1:5]}/{i}/{k}", "seed": ck.seed, "plan": x["moves"][0][1], "moves": x["moves"][1:]})
    rnd = random.Random(ck.seed)
    for a, r in zip(sl, res[len(jobs) + len(ctrl) + len(emits):]):
        lines = sorted(r.lines, key=lambda x: repr(x["moves"]))
        for i, x in enumerate(lines):
            for k in range(per):
                tasks.append({"mode": "slices", "id": f"slices{a[8]}/{i}/{k}", "seed": ck.seed, "plan": [1, rnd.choice((1, 2))], "moves": x["moves"], "other": rnd.random() < 0.5})
    for t, g in zip(tasks, pool.run("conc", "replay", tasks)):
        if "crash" in g:
            ck.violation(f"[conc] schedule {t['id']}: {g['crash']}"[:900], {"suite": "conc", "func": "replay", "task": t})
            continue
        ck.count("schedules_" + t["mode"])
        ck.count("traces_validated_against_impl")
        ck.count("answers_compared", g["compared"])
        for text in g["bad"][:1]:
            ck.violation(f"[conc] schedule {t['id']} {t['moves']}: {text}"[:900], {"suite": "conc", "func": "replay", "task": t})
    if tasks:
        ck.sample({"schedule": tasks[len(tasks) // 3]})
        ck.sample({"schedule": tasks[-1]})
