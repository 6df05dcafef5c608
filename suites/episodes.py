"""Random episodes on the real classes, judged by spec/TraceSem.tla.

record() runs in a worker: it draws a context (class, data, variogram, frame,
drift ...), performs events on real objects and returns the episode log.
check() lets TLC judge the logs.
"""
import contextlib
import copy
import io
import json
import math
import os
import pickle
import random
import sys

BAD = 2147483647
GOODANG2 = (0, 30, 45, 90, 120, -60, 200, 17, 300)


def micro(v, scale=1.0):
    v = float(v) / scale * 1e6
    if not math.isfinite(v) or abs(v) > 2.1e9:
        return BAD
    return int(round(v))


# ------------------------------------------------------------------ kernels
def kernel_np(kind, p, d):
    """the documented models; p = (psill, range, nugget) or (scale, exponent, nugget)"""
    import numpy as np

    d = np.asarray(d, dtype=float)
    if kind.endswith("-chord"):
        # on the sphere by the length of the chord (covariance models)
        return kernel_np(kind[:-6], p, np.degrees(2 * np.sin(np.radians(d) / 2)))
    if kind == "linear":
        return p[0] * d + p[2]
    if kind == "power":
        return p[0] * d ** p[1] + p[2]
    if kind == "gaussian":
        return p[0] * (1 - np.exp(-(d**2) / (p[1] * 4 / 7) ** 2)) + p[2]
    if kind == "exponential":
        return p[0] * (1 - np.exp(-d / (p[1] / 3))) + p[2]
    if kind == "spherical":
        return np.where(d <= p[1], p[0] * (1.5 * d / p[1] - d**3 / (2 * p[1] ** 3)) + p[2], p[0] + p[2])
    if kind == "hole-effect":
        return p[0] * (1 - (1 - d / (p[1] / 3)) * np.exp(-d / (p[1] / 3))) + p[2]
    raise KeyError(kind)


class Custom:
    """a user-supplied variogram function (copyable): slots tells where each
    of the model's numbers is found, in the parameters or (negative) known"""

    def __init__(self, kind, slots=(0, 1, 2), known=()):
        self.kind, self.slots, self.known = kind, slots, known

    def __call__(self, p, d):
        return kernel_np(self.kind, [p[i] if i >= 0 else self.known[-1 - i] for i in self.slots], d)

    def __eq__(self, other):
        return type(self) is type(other) and self.__dict__ == other.__dict__

    __hash__ = object.__hash__


class Drift:
    """a user-supplied drift function (copyable); base = in base units"""

    def __init__(self, code, u=1.0, off=(0, 0, 0), a=1.0, b=0.0):
        self.code, self.u, self.off, self.a, self.b = code, u, off, a, b

    def __call__(self, x, y, z=0.0):
        if self.code == "fx":
            return self.a * x + self.b
        if self.code == "fy":
            return self.a * y + self.b
        if self.code == "fz":
            return self.a * z + self.b
        X, Y = x / self.u - self.off[0], y / self.u - self.off[1]
        return self.a * X * Y / 100.0 + self.b

    __eq__, __hash__ = Custom.__eq__, Custom.__hash__


def closure(f):
    """functions that differ in what they refer to only"""
    return lambda *a: f(*a)


class Ep:
    """One episode: context, objects, log."""

    def __init__(self, focus, ident, seed):
        self.focus, self.ident = focus, ident
        self.r = random.Random(f"{focus}/{ident}/{seed}")
        self.talk = random.Random(f"talk/{focus}/{ident}/{seed}")
        self.events = []
        self.objs = {}      # id -> dict(real=, s=, pres=)
        self.held = []      # arrays handed to the code: (name, object, copy)
        self.vs = self.r.choice((1.0, 1.0, 1e-3, 1e4, 7.0) if focus != "data" else (1.0, 1e-3, 7.0, 1e-11, 1e12))
        self.gs = self.r.choice((1.0, 1.0, 1e-3, 250.0) if focus == "pinv" else (1.0, 1.0, 1.0, 1e-3, 250.0, 1e-9, 1e7))
        self.grid = {"ax": [0, 1], "ay": [0, 1], "z": [[0, 0], [0, 0]]}
        self.tables = {"basis": [], "s1": [], "s2": [], "w1": [], "w2": []}
        self.wells = {}
        self.label = ""
        self.even = set()

    # ---------------------------------------------------------------- context
    def chance(self, p):
        return self.r.random() < p

    def context(self, classes, geo=0.0, n=(6, 10), aniso=0.5, drift=0.7, fit=0.0, kinds=None, how=None, nug=0.7,
                rational=False, codes=None, big=True, plane=False, arc=False, stars=False):
        r = self.r
        self.cls = r.choice(classes)
        self.dim = 3 if self.cls.endswith("3d") else 2
        self.geo = self.cls == "ok" and r.random() < geo
        nn = r.randint(*n) + (3 if self.cls.startswith("uk") else 0)
        # positions
        if self.geo:
            whole = 180 if getattr(self, "small", False) else 360
            ax = [r.randrange(0, whole) for _ in range(4)]
            ay = [0] if arc else sorted(r.sample(range(-85, 86), 3)) + ([90] if self.chance(0.15) else [])
            pool = lambda: [r.randrange(0, whole), 0 if arc else r.randint(-85, 85)]
        elif self.dim == 2:
            ax = r.sample(range(-2, 43), 4)
            ay = r.sample(range(-2, 43), 3)
            pool = lambda: [r.randint(0, 40), r.randint(0, 40)]
        else:
            ax, ay, az = r.sample(range(-1, 21), 3), r.sample(range(-1, 21), 2), r.sample(range(-1, 21), 2)
            zz = r.randint(0, 20)
            if plane:
                az = [zz]
            pool = lambda: [r.randint(0, 20), r.randint(0, 20), zz if plane else r.randint(0, 20)]
        self.data = []
        sep = 6 if self.geo else getattr(self, "sep_min", 5)
        tries = 0
        while len(self.data) < nn:
            p = pool()
            tries += 1
            if tries > 3000:
                break
            if all(self.sep(p, q) >= sep for q in self.data):
                self.data.append(p)
        self.even = {tuple(p) for p in self.data}
        self.centres = []
        if stars:
            self.constellations(ax, ay, az if self.dim == 3 else None)
        # grid axes hit some data positions
        def uniq(a):
            return sorted(set(a))
        ax[0], ay[0] = self.data[0][0], self.data[0][1]
        if len(ay) > 1 and not arc:
            ay[1] = self.data[1][1]
        ax[1] = self.data[1][0]
        self.axes = [uniq(ax), uniq(ay)]
        if self.dim == 3:
            az[0] = self.data[0][2]
            self.axes.append(uniq(az))
        self.universe = [list(p) for p in self.cells(self.axes)]
        for p in self.data + self.centres:
            if p not in self.universe:
                self.universe.append(list(p))
        # frame of the actual coordinates
        self.ui = 0 if self.geo else (r.choice((0, 0, 1, 2, 3, 4, 10)) if big else r.choice((0, 0, 2, 3, 10)))
        self.off = [0] * self.dim if self.geo else [r.choice((0, 0, 50, -300, 1000)) for _ in range(self.dim)]
        self.rot = [0] if self.dim == 2 else [0, 0, 0]
        # anisotropy
        self.ang = [0] if self.dim == 2 else [0, 0, 0]
        self.sca = [[1, 1]] if self.dim == 2 else [[1, 1], [1, 1]]
        if self.chance(aniso):
            self.ang, self.sca = self.draw_ani(rational)
        self.exact = self.chance(0.7)
        self.kinds = kinds or ("linear", "power", "gaussian", "spherical", "exponential", "hole-effect")
        self.how = how
        self.pnug = nug
        for _ in range(60):
            self.vario = self.draw_vario(fit)
            self.drift = self.draw_drift(drift, codes) if self.cls.startswith("uk") else []
            if self.wellposed():
                break
        else:
            return False
        extreme = self.gs in (1e-9, 1e7) or (self.gs < 1 and self.ui == 1) or self.focus == "pinv"
        if self.drift and extreme and self.focus != "stats":
            # semivariances and drift columns of very different size: a matter of conditioning
            self.gs = 1.0
        if big and not self.geo and not self.drift and self.vario["how"] != "fit" and self.chance(0.12):
            # a very small region (locations are told apart from 1e-10 on)
            self.ui = 8
        if big and not self.geo and not self.drift and self.vario["how"] != "fit" and self.chance(0.15):
            # far from the origin of the coordinates
            self.off = [r.choice((0, 4 * 10**6, -5 * 10**6, 2**23 + 1)) for _ in range(self.dim)]
        self.make_tables()
        return True

    def constellations(self, ax, ay, az):
        """places whose neighbours lie at the same distances in other directions"""
        r, d = self.r, self.dim
        wide = 42 if d == 2 else 21
        rays = ((2, 1, 0), (3, 1, 0), (4, 2, 0), (5, 1, 0), (6, 2, 0)) if d == 2 else ((1, 1, 0), (2, 1, 1), (3, 1, 0), (3, 2, 1), (4, 1, 1))
        rays = [list(v[:d]) for v in r.sample(rays, r.randint(3, 5))]
        spots = [[a, b] + [c] * (d - 2) for a in (wide // 5, wide - wide // 5) for b in (wide // 5, wide - wide // 5) for c in (wide // 5, wide - wide // 5)[: d - 1]]
        spots = [list(t) for t in sorted({tuple(t) for t in spots})]
        self.centres = r.sample(spots, min(len(spots), r.randint(2, 4)))
        self.data = []
        for c in self.centres:
            for v in rays:
                v = [x * r.choice((1, -1)) for x in v]
                r.shuffle(v)
                self.data.append([a + b for a, b in zip(c, v)])
        self.ray = len(rays)
        r.shuffle(self.data)
        for t, c in enumerate(self.centres[:2]):
            ax[t + 2 if d == 2 else 2] = c[0]
            ay[-1] = c[1]

    def sep(self, p, q):
        if self.geo:
            return sphere(p, q)
        return math.dist(p, q)

    def draw_ani(self, rational=False):
        r = self.r
        # strong anisotropies among the usual ones
        far = not rational and self.cls.startswith("ok") and self.chance(0.1)
        sc = lambda: list(r.choice(((1, 50), (1, 30), (1, 1)) if far else ((2, 1), (1, 2), (3, 1), (3, 2), (1, 1), (5, 2))))
        if self.dim == 2:
            a = r.choice((0, 90, 180, 1005, 1006, 1007, 1008)) if rational else r.choice(GOODANG2)
            return [a], [sc()]
        if rational:
            a = [r.choice((0, 90, 270)) for _ in range(3)]
            if self.chance(0.5):
                a[r.randrange(3)] = r.choice((1005, 1006, 1007))
        else:
            a = [r.choice(GOODANG2) for _ in range(3)]
        return a, [sc(), sc()]

    def draw_vario(self, fit=0.0, kinds=None):
        r = self.r
        kind = r.choice(kinds or self.kinds)
        nug = 0 if not self.chance(self.pnug) else r.choice((2, 3, 5, 10))
        v = {"kind": kind, "nlags": 6, "weight": False, "gang": [0] * len(self.ang), "gsca": [[1, 1]] * len(self.sca)}
        # semivariances fitted to very small values beside drift columns, or over a very small region: a matter of conditioning
        plain = self.ui != 8 and (self.cls[:2] == "ok" or 0.1 <= self.vs <= 1e3)
        if r.random() < fit and plain:
            v.update(how="fit", p=[0, 0, 0], nlags=r.choice((6, 6, 4, 8)), weight=self.chance(0.4))
            return v
        if kind == "linear":
            v.update(how=self.how or r.choice(("list", "psill")), p=[0 if nug and self.chance(0.06) else r.randint(1, 20), nug])
        elif kind == "power":
            e = r.choice((5, 10)) if self.geo else r.choice((5, 10, 15, 18))
            v.update(how=self.how or r.choice(("list", "psill")), p=[r.randint(1, 4 if e > 10 else 10), e, nug])
        else:
            rg = r.randint(100, 600)
            if kind in ("gaussian", "hole-effect") and nug == 0:
                rg = r.randint(60, 130)
            if self.geo:
                rg *= 3
            ps = r.randint(8, 50)
            if nug and self.chance(0.06):
                # nothing but nugget
                ps = 0
            how = self.how or r.choice(("list", "sill", "psill", "custom", "custom"))
            if how in ("list", "sill"):
                v.update(how=how, p=[ps + nug, rg, nug])
            else:
                v.update(how=how, p=[ps, rg, nug])
        if kind in ("linear", "power") and self.how is None and self.focus in ("exact", "style", "window", "equiv") and self.chance(0.2):
            v["how"] = "custom"
        return v

    def draw_drift(self, p, codes=None):
        r = self.r
        if r.random() > p:
            return []
        if self.dim == 3 and codes:
            codes = [c for c in codes if c not in ("w1", "w2", "ext")]
        menu = codes or (["lin", "s1", "s2", "fxy", "w1", "w2", "ext", "x", "fx"] if self.dim == 2 else ["lin", "s1", "s2", "fxy", "x", "fx"])
        out = []
        for c in r.sample(menu, min(len(menu), r.randint(1, 3))):
            if c in ("x", "fx", "fy", "fz", "xy") and ("lin" in out or "fx" in out or "x" in out):
                continue
            if c == "lin" and ({"x", "fx"} & set(out)):
                continue
            if c == "fxy" and "xy" in out:
                continue
            out.append(c)
        if "ext" in out:
            self.make_ext()
        return out

    def make_ext(self):
        r = self.r
        def ax():
            # in sixteenths of a position: coarse, almost regular, anything
            steps = r.choice(((32, 64, 128, 128), (127, 128, 128, 129), range(25, 160)))
            a = [-16 * (4 + r.randrange(3))]
            while a[-1] < 44 * 16:
                a.append(a[-1] + r.choice(steps))
            return a
        gx, gy = ax(), ax()
        self.grid = {"ax": gx, "ay": gy, "z": [[r.randint(-9, 9) for _ in gx] for _ in gy]}

    # ------------------------------------------------------------ geometry
    def unit(self, ui=None):
        return (1.0, 1000.0, 0.5, 10.0, 1e-3, 25000.0, 1e-5, 1e-6, 1.31234e-9, 1e-7, 0.7)[self.ui if ui is None else ui]

    def base(self, p):
        """positions are integers; <<900 + j, 901 or 902>> stands for a place 10^-j away from a well"""
        if self.dim == 2 and p[0] >= 900 and p[1] in (901, 902):
            w = self.wells["w%d" % (p[1] - 900)]
            d = 10.0 ** -(p[0] - 900)
            return [w[0] + 0.6 * d, w[1] - 0.8 * d]
        return p

    def near_wells(self):
        """more positions to ask for"""
        if self.dim == 2 and self.drift and set(self.drift) <= {"w1", "w2", "s1", "s2"}:
            for c in self.drift:
                if c in ("w1", "w2"):
                    if self.chance(0.7):
                        # a datum close to the well
                        at, had = [900 + self.r.choice((2, 3, 4)), 900 + int(c[1])], self.data
                        w = self.wells[c]
                        self.data = [p for p in had if math.dist(self.base(p), w) > 4] + [at]
                        if self.wellposed():
                            self.universe.append(at)
                        else:
                            self.data = had
                    near = [[900 + j, 900 + int(c[1])] for j in self.r.sample(range(1, 7), 3)]
                    self.universe += [p for p in near if self.moderate(p)]
            self.make_tables()

    def moderate(self, p):
        """is the kriging system's answer at p within the range of the numbers logged? (least squares trend only)"""
        import numpy as np

        F = lambda P: np.array([[1.0] + [self.drift_value(c, q) for c in self.drift_codes()] for q in P], float)
        A, b = F(self.data), F([p])[0]
        w = np.linalg.lstsq(A.T, b, rcond=None)[0]
        k = kernel_np(*self.kernel(self.vario), np.array([60.0]))[0]
        return np.abs(w).sum() ** 2 * k < 1200 and np.abs(w).sum() < 60

    def actual(self, p, fr):
        """actual coordinates of a base position; fr = dict(ui, off, rot)"""
        if self.geo:
            lon = p[0] * self.unit(fr["ui"]) + fr["off"][0]
            lon += 360 * fr["turn"](p) if fr.get("turn") else 0
            return [float(lon), p[1] * self.unit(fr["ui"])]
        q = [float(c) for c in self.base(p)]
        if self.dim == 2:
            q = rot2(q, fr["rot"][0])
        else:
            q = rot3(q, fr["rot"])
        return [(c + o) * self.unit(fr["ui"]) for c, o in zip(q, fr["off"])]

    def frame(self):
        return {"ui": self.ui, "off": self.off, "rot": self.rot}

    def relframe(self, s=None):
        """matrix taking base differences to adjusted differences"""
        import numpy as np

        ang, sca, rot = (s["ang"], s["sca"], s["rot"]) if s else (self.ang, self.sca, self.rot)
        v = (s or {}).get("vario", None)
        if v and v["how"] == "gs":
            ang, sca = v["gang"], v["gsca"]
        a = [degrees(t) for t in ang]
        if self.dim == 2:
            M = R2(-a[0]) @ R2(rot[0])
            return np.diag([1.0, sca[0][0] / sca[0][1]]) @ M
        M = R3(2, -a[2]) @ R3(1, -a[1]) @ R3(0, -a[0])
        for k in range(3):
            M = M @ R3(k, rot[k])
        return np.diag([1.0, sca[0][0] / sca[0][1], sca[1][0] / sca[1][1]]) @ M

    def dist(self, P, Q, s=None):
        import numpy as np

        if self.geo:
            return np.array([[sphere(p, q) for q in Q] for p in P])
        M = self.relframe(s)
        P, Q = [self.base(p) for p in P], [self.base(q) for q in Q]
        P, Q = np.array(P, dtype=float) @ M.T, np.array(Q, dtype=float) @ M.T
        return np.sqrt(((P[:, None, :] - Q[None, :, :]) ** 2).sum(-1))

    def well_value(self, c, p):
        w = self.wells[c]
        M = self.relframe()
        p = self.base(p)
        d = M @ [p[0] - w[0], p[1] - w[1]]
        return -math.log(math.hypot(*d))

    def drift_value(self, c, p):
        """value of drift code c at base position p, in base units"""
        if c in ("x", "fx"):
            return p[0]
        if c in ("y", "fy"):
            return p[1]
        if c in ("z", "fz"):
            return p[2]
        if c in ("xy", "fxy"):
            return p[0] * p[1] / 100.0
        if c == "ext":
            return self.bilinear(p[0], p[1])
        if c in ("w1", "w2"):
            return self.well_value(c, p)
        return self.lookup(c, p)

    def bilinear(self, x, y):
        g = self.grid
        x, y = 16 * x, 16 * y
        i = max(k for k in range(len(g["ax"]) - 1) if g["ax"][k] <= x)
        j = max(k for k in range(len(g["ay"]) - 1) if g["ay"][k] <= y)
        tx = (x - g["ax"][i]) / (g["ax"][i + 1] - g["ax"][i])
        ty = (y - g["ay"][j]) / (g["ay"][j + 1] - g["ay"][j])
        z = g["z"]
        return (1 - ty) * ((1 - tx) * z[j][i] + tx * z[j][i + 1]) + ty * ((1 - tx) * z[j + 1][i] + tx * z[j + 1][i + 1])

    def lookup(self, c, p):
        # a fixed pseudo-random integer surface
        x = 7 if c == "s1" else 13
        for t in p:
            x = (x * 1103515245 + t * 12345 + 777) % 2147483647
            x ^= x >> 7
        v = x % 25 - 12
        # even where the first data are
        return v - v % 2 if tuple(p) in self.even else v

    def drift_codes(self):
        out = []
        for c in self.drift:
            out += (["x", "y", "z"][: self.dim] if c == "lin" else [c])
        return out

    def wellposed(self, s=None, data=None):
        import numpy as np

        data = data or self.data
        v = s["vario"] if s else self.vario
        if "w1" in self.drift or "w2" in self.drift:
            for c, w in (("w1", [11.3, 17.6]), ("w2", [33.7, 5.2])):
                self.wells.setdefault(c, w)
        D = self.dist(data, data, s)
        n = len(data)
        if v["how"] == "fit":
            K = kernel_np("exponential", (1.0, D.max(), 0.0), D)
        else:
            K = kernel_np(*self.kernel(v), D)
        np.fill_diagonal(K, 0.0)
        F = [np.ones(n)]
        saved, self.drift = self.drift, (s["drift"] if s else self.drift)
        for c in self.drift_codes():
            F.append(np.array([self.drift_value(c, p) for p in data], dtype=float))
        self.drift = saved
        F = np.array([f / max(1e-9, np.abs(f).max()) for f in F])
        if F.shape[0] >= n - 1 and F.shape[0] > 1:
            return False
        A = np.block([[K / K.max(), F.T], [F, np.zeros((len(F), len(F)))]])
        return np.linalg.cond(A) < 2e5

    def kernel(self, v):
        p = [t / 10.0 for t in v["p"]]
        k = v["kind"]
        if k == "linear":
            return k, (p[0], 0, p[1])
        if k == "power":
            return k, (p[0], p[1], p[2])
        if v["how"] in ("list", "sill"):
            return k, (p[0] - p[2], p[1], p[2])
        return k, (p[0], p[1], p[2])

    def make_tables(self):
        r = self.r
        for p in self.universe:
            q = place(p) if self.geo else p
            if not any(t["p"] == q for t in self.tables["basis"]):
                self.tables["basis"].append({"p": q, "v": [r.randint(-10, 10), r.randint(-10, 10)]})
        for c in ("s1", "s2"):
            self.tables[c] = [{"p": p, "v": self.lookup(c, p) * 1000000} for p in self.universe] if c in self.drift else []
        for c in ("w1", "w2"):
            self.tables[c] = [{"p": p, "v": micro(self.well_value(c, p))} for p in self.universe] if c in self.drift else []

    def basis(self, p):
        q = place(p) if self.geo else p
        return next(t["v"] for t in self.tables["basis"] if t["p"] == q)

    def value(self, s, p):
        b = self.basis(p)
        v = s["co"][0] * b[0] + s["co"][1] * b[1] + s["co"][2]
        for d in s["dco"]:
            v += d["d"] * self.drift_value(d["code"], p)
        return v * self.vs

    # ------------------------------------------------------------- settings
    def settings(self, **over):
        s = {
            "cls": self.cls, "geo": self.geo, "data": self.data, "co": [1, 0, 0], "dco": [], "rot": self.rot,
            "vario": self.vario, "ang": self.ang, "sca": self.sca, "exact": self.exact, "drift": self.drift,
        }
        s.update(over)
        return copy.deepcopy(s)

    def form(self, a, kind=None):
        """the same numbers in another form"""
        import numpy as np

        a = np.asarray(a, dtype=float)
        kind = kind or self.r.choice(("f8", "f8", "f8", "list", "int", "f4", "col", "strided", "ro", "swap"))
        if kind == "list":
            return a.tolist()
        if kind == "int" and (a == np.rint(a)).all():
            return a.astype(np.int64)
        if kind == "f4" and (a == a.astype(np.float32).astype(float)).all():
            return a.astype(np.float32)
        if kind == "col" and a.size > 1:
            return a.reshape(-1, 1).copy()
        if kind == "strided":
            b = np.full(2 * a.size + 1, 9.9e5)
            b[1::2] = a
            return b[1::2]
        if kind == "swap":
            return a.astype(">f8")
        b = a.copy()
        if kind == "ro":
            b.flags.writeable = False
        return b

    def vario_kw(self, v, ui):
        """keyword arguments for a variogram"""
        kind, how, p = v["kind"], v["how"], [t / 10.0 for t in v["p"]]
        u, g = self.unit(ui), self.gs
        kw = {"nlags": v["nlags"], "weight": v["weight"]}
        if v["nlags"] == 6 and self.chance(0.5):
            del kw["nlags"]
        if how == "fit":
            return dict(kw, variogram_model=kind)
        if how == "gs":
            return dict(kw, variogram_model=self.gsmodel(v, ui))
        if kind == "linear":
            q = [p[0] * g / u, p[1] * g]
            names = ("slope", "nugget")
        elif kind == "power":
            q = [p[0] * g / u ** p[1], p[1], p[2] * g]
            names = ("scale", "exponent", "nugget")
        else:
            q = [p[0] * g, p[1] * u, p[2] * g]
            names = ("sill" if how in ("list", "sill") else "psill", "range", "nugget")
        if how == "custom":
            if kind == "linear":
                q = [q[0], 0.0, q[1]]
            # the user's function has its parameters in any order, or knows some of them
            slots, given, known = [0] * 3, [], []
            for i in self.r.sample(range(3), 3) if self.chance(0.7) else range(3):
                if self.chance(0.2) or (kind == "linear" and i == 1):
                    known.append(q[i])
                    slots[i] = -len(known)
                else:
                    slots[i] = len(given)
                    given.append(q[i])
            if not given or self.chance(0.4):
                # and parameters of no consequence
                given.append(self.r.choice((0.0, 0.0, 3.0, -1.0)))
            return dict(kw, variogram_model="custom", variogram_parameters=given, variogram_function=Custom(kind, tuple(slots), tuple(known)))
        if how == "list":
            if self.chance(0.3) and all(t == int(t) for t in q):
                q = [int(t) for t in q]
            return dict(kw, variogram_model=kind, variogram_parameters=q)
        items = list(zip(names, q))
        self.r.shuffle(items)
        return dict(kw, variogram_model=kind, variogram_parameters=dict(items))

    def gsmodel(self, v, ui):
        import gstools as gst

        kind, p, u = v["kind"], [t / 10.0 for t in v["p"]], self.unit(ui)
        cls, length = {
            "gaussian": (gst.Gaussian, p[1] * 4 / 7 * math.sqrt(math.pi) / 2),
            "exponential": (gst.Exponential, p[1] / 3),
            "spherical": (gst.Spherical, p[1]),
        }[kind]
        kw = {"var": p[0] * self.gs, "nugget": p[2] * self.gs}
        if self.geo:
            try:
                return cls(latlon=True, len_scale=math.radians(length), **kw)
            except TypeError:
                return cls(latlon=True, len_scale=math.radians(length), **kw)
        anis = [b / a for a, b in v["gsca"]]
        if self.dim == 2:
            return cls(dim=2, len_scale=length * u, anis=anis, angles=math.radians(degrees(v["gang"][0])), **kw)
        g = [math.radians(degrees(t)) for t in v["gang"]]
        return cls(dim=3, len_scale=length * u, anis=anis, angles=[g[2], g[1], g[0]], **kw)

    def ani_kw(self, ang, sca, partial=True):
        a, t = [degrees(x) for x in ang], [x[0] / x[1] for x in sca]
        if self.dim == 2:
            kw = {"anisotropy_scaling": t[0], "anisotropy_angle": a[0]}
        else:
            kw = {"anisotropy_scaling_y": t[0], "anisotropy_scaling_z": t[1],
                  "anisotropy_angle_x": a[0], "anisotropy_angle_y": a[1], "anisotropy_angle_z": a[2]}
        if partial and self.chance(0.4):
            for k in list(kw):
                if kw[k] == (1.0 if "scaling" in k else 0.0):
                    del kw[k]
        return kw

    def cls_of(self, name):
        import pykrige

        return {"ok": pykrige.OrdinaryKriging, "uk": pykrige.UniversalKriging,
                "ok3d": pykrige.OrdinaryKriging3D, "uk3d": pykrige.UniversalKriging3D}[name]

    def hold(self, name, a):
        """remember an argument to see later whether it was changed"""
        self.held.append((name, a, snapshot(a)))
        return a

    # --------------------------------------------------------------- events
    def new(self, o, s, fr=None, pinv=None, forms=True, **extra):
        import numpy as np

        fr = fr or self.frame()
        fr = dict(fr, rot=s["rot"])
        pres = {"fr": fr, "spec": [], "cls": s["cls"]}
        P = np.array([self.actual(p, fr) for p in s["data"]])
        Z = np.array([self.value(s, p) for p in s["data"]])
        f = (lambda a: self.form(a)) if forms else (lambda a: np.array(a, dtype=float))
        kw = self.vario_kw(s["vario"], fr["ui"])
        kw.update(self.ani_kw(s["ang"], s["sca"]) if not self.geo else {})
        kw["exact_values"] = s["exact"]
        if s["exact"] and self.chance(0.3):
            del kw["exact_values"]
        if self.geo:
            kw["coordinates_type"] = "geographic"
            if self.focus == "sphere" and self.chance(0.4):
                kw.update(anisotropy_scaling=2.0, anisotropy_angle=33.0)
        if pinv:
            kw.update(pseudo_inv=True, pseudo_inv_type=pinv)
        if s["cls"].startswith("uk"):
            kw.update(self.drift_kw(s, fr, pres))
        kw.update(extra)
        if self.talk.random() < 0.15:
            kw.setdefault("verbose", True)
        if self.talk.random() < 0.005:
            kw.setdefault("enable_plotting", True)
        args = [self.hold("data", f(P[:, k])) for k in range(P.shape[1])] + [self.hold("values", f(Z))]
        for k in ("variogram_parameters", "drift_terms", "specified_drift", "functional_drift", "external_drift",
                  "external_drift_x", "external_drift_y", "point_drift"):
            if k in kw:
                self.hold(k, kw[k])
        pres["args"], pres["kw"] = args, kw
        err = ""
        try:
            real = self.cls_of(s["cls"])(*args, **kw)
        except Exception as e:
            real, err = None, f"{type(e).__name__}: {e}"[:200]
        self.objs[o] = {"real": real, "s": s, "pres": pres}
        self.events.append({"op": "new", "o": o, "s": s, "err": err})
        return real is not None

    def level(self):
        """of a drift column: the constant's"""
        if self.focus == "drift" and self.gs == 1.0 and self.chance(0.12):
            return self.r.choice((70000.0, -60000.0))
        return self.r.choice((0.0, 0.0, 3.0))

    def drift_kw(self, s, fr, pres):
        import numpy as np

        r = self.r
        terms, spec, fun, kw, wells = [], [], [], {}, []
        closures = self.focus in ("drift", "equiv", "backend", "style") and self.chance(0.5)
        for c in s["drift"]:
            if c == "lin":
                terms.append("regional_linear")
            elif c == "ext":
                terms.append("external_Z")
                u = self.unit(fr["ui"])
                gx = (np.array(self.grid["ax"], float) / 16 + fr["off"][0]) * u
                gy = (np.array(self.grid["ay"], float) / 16 + fr["off"][1]) * u
                gz = np.array(self.grid["z"], float)
                if self.chance(0.25):
                    gx, gz = gx[::-1], gz[:, ::-1]
                if self.chance(0.25):
                    gy, gz = gy[::-1], gz[::-1]
                if gz.shape[0] != gz.shape[1] and self.chance(0.25):
                    gz = gz.T
                form = r.choice(("f8", "f8", "list", "col", "int", "fortran"))
                if self.focus in ("external", "drift") and self.chance(0.3):
                    # heights of a plateau: the level is the constant's
                    gz = gz + r.choice((20000.0, -7000.0)) if form == "int" else 0.77 * gz + r.choice((20000.3, -7000.7))
                gz = {"list": gz.tolist(), "int": gz.astype(int), "fortran": np.asfortranarray(gz)}.get(form, gz.copy())
                kw.update(external_drift=gz, external_drift_x=self.form(gx, r.choice(("f8", form))),
                          external_drift_y=self.form(gy, r.choice(("f8", form))))
            elif c in ("w1", "w2"):
                w = self.actual_f(self.wells[c], fr)
                wells.append([w[0], w[1], r.choice((1.0, -2.0, 0.3))])
                if "point_log" not in terms:
                    terms.append("point_log")
            elif c in ("x", "y", "z", "xy", "s1", "s2"):
                if "specified" not in terms:
                    terms.append("specified")
                a, b = r.choice((1.0, -2.0, 0.5, 1000.0, 5000.0) if self.gs >= 1 else (1.0, -2.0, 0.5)), self.level()
                form = r.choice(("f8", "f8", "list", "strided", "int"))
                if self.focus == "drift" and c[0] == "s" and self.chance(0.3):
                    # whole numbers at the data, fractions elsewhere
                    a, b, form = r.choice((0.5, -1.5)), r.choice((0.0, 3.0)), "int"
                arr = np.array([a * self.drift_value(c, p) + b for p in s["data"]])
                spec.append(self.form(arr, form))
                pres["spec"].append((c, a, b))
            else:
                if "functional" not in terms:
                    terms.append("functional")
                u = self.unit(fr["ui"])
                fun.append(Drift(c, u, fr["off"], r.choice((1.0, -1.5)) / (u if c != "fxy" else 1.0), self.level()))
                if closures:
                    fun[-1] = closure(fun[-1])
        r.shuffle(terms)
        if spec:
            kw["specified_drift"] = spec
        if fun:
            kw["functional_drift"] = fun
        if wells:
            kw["point_drift"] = np.array(wells) if self.chance(0.6) else wells
        if terms or self.chance(0.5):
            kw["drift_terms"] = terms
        return kw

    def actual_f(self, p, fr):
        q = rot2([float(c) for c in p], fr["rot"][0])
        return [(c + o) * self.unit(fr["ui"]) for c, o in zip(q, fr["off"])]

    def show(self, o):
        """what only talks or draws: never part of an answer"""
        t, real = self.talk, self.objs[o]["real"]
        if real is None or t.random() > 0.06:
            return
        what = t.choice(("switch_verbose",) * 10 + ("print_statistics",) * 10 + ("get_statistics", "get_epsilon_residuals", "get_variogram_points") * 3
                        + ("display_variogram_model", "plot_epsilon_residuals", "switch_plotting"))
        if not hasattr(real, what) or (what == "plot_epsilon_residuals" and getattr(real, "epsilon", None) is None):
            return
        err = ""
        try:
            got = getattr(real, what)()
            if what == "switch_plotting":
                real.display_variogram_model()
                real.switch_plotting()
            for a in got or () if what == "get_variogram_points" else [got] if what == "get_epsilon_residuals" and got is not None else []:
                # what was handed out belongs to the caller
                a *= 3.0
        except Exception as e:
            err = f"{type(e).__name__}: {e}"[:200]
        self.events.append({"op": "show", "o": o, "what": what, "err": err})

    def upd(self, o, vario, ang=None, sca=None):
        self.show(o)
        ob = self.objs[o]
        kw = self.vario_kw(vario, ob["pres"]["fr"]["ui"])
        u = {"vario": vario, "hasani": ang is not None, "ang": ang or ob["s"]["ang"], "sca": sca or ob["s"]["sca"]}
        if ang is not None:
            kw.update(self.ani_kw(ang, sca))
        if "variogram_parameters" in kw:
            self.hold("update parameters", kw["variogram_parameters"])
        err = ""
        try:
            ob["real"].update_variogram_model(**kw)
        except Exception as e:
            err = f"{type(e).__name__}: {e}"[:200]
        else:
            s = copy.deepcopy(ob["s"])
            s["vario"] = vario
            s["ang"] = ang if ang is not None else [0] * len(s["ang"])
            s["sca"] = sca if ang is not None else [[1, 1]] * len(s["sca"])
            ob["s"] = s
        self.events.append({"op": "upd", "o": o, "u": copy.deepcopy(u), "err": err})

    def draw_request(self, style=None, size=(3, 8)):
        r = self.r
        rot = any(t % 360 for t in self.rot)
        style = style or (r.choice(("points", "grid", "masked")) if not rot else "points")
        rq = {"style": style, "k": 0}
        if style == "points":
            k = min(len(self.universe), r.randint(*size))
            pts = r.sample(self.universe, k)
            for t in range(len(pts)):
                if self.chance(0.25):
                    pts[t] = r.choice(self.data)
            if self.chance(0.05):
                pts = pts[:1]
            rq["pts"] = copy.deepcopy(pts)
        else:
            axes = []
            for a in self.axes:
                b = r.sample(a, r.randint(1, min(3, len(a))))
                if self.chance(0.7):
                    b.sort()
                axes.append(b)
            rq["axes"] = axes
            if style == "masked":
                shape = [len(a) for a in reversed(axes)]
                p = r.choice((0.0, 0.4, 0.4, 0.4, 1.0))
                m = nested(shape, lambda: r.random() < p)
                if shape[0] != shape[-1] and self.chance(0.3):
                    m = swapends(m, len(shape))
                rq["mask"] = m
        return rq

    def exec(self, o, rq, backend, k=0, forms=True, raw=False, fill=0):
        """put a request and log the answer; fill: among so many other places"""
        import numpy as np

        self.show(o)
        if fill:
            return self.exec_among(o, rq, backend, k, fill)

        ob = self.objs[o]
        fr, s, r = ob["pres"]["fr"], ob["s"], self.r
        rq = copy.deepcopy(rq)
        style = rq["style"]
        cells = rq["pts"] if style == "points" else self.cells(rq["axes"])
        if style == "points":
            Q = np.array([self.actual(p, fr) for p in rq["pts"]])
            args = [Q[:, t] for t in range(Q.shape[1])]
        else:
            zero = [0] * self.dim
            args = []
            for a, vals in enumerate(rq["axes"]):
                col = []
                for v in vals:
                    p = list(zero)
                    p[a] = v
                    col.append(self.actual(p, fr)[a])
                args.append(np.array(col))
        if forms:
            args = [self.form(a) for a in args]
        else:
            args = [np.array(a) for a in args]
        for a in args:
            self.hold("request", a)
        kw = {"backend": backend}
        if backend == "vectorized" and self.chance(0.4):
            del kw["backend"]
        if k:
            kw["n_closest_points"] = k
        if style == "masked":
            m = np.array(rq["mask"], dtype=bool)
            how = r.choice(("bool", "bool", "int", "list", "fortran"))
            kw["mask"] = self.hold("mask", {"bool": m, "int": m.astype(int), "list": m.tolist(), "fortran": np.asfortranarray(m)}[how])
        elif style != "masked" and self.focus == "style" and self.chance(0.1):
            kw["mask"] = None
        shape = (len(cells),) if style == "points" else tuple(len(a) for a in reversed(rq["axes"]))
        if ob["pres"]["spec"]:
            arrs = []
            for c, a, b in ob["pres"]["spec"]:
                v = np.array([a * self.drift_value(c, p) + b for p in cells]).reshape(shape)
                if style != "points" and shape[0] != shape[-1] and self.chance(0.25):
                    v = np.swapaxes(v, 0, -1)
                if style == "points" and self.chance(0.2):
                    v = v.reshape(-1, 1)
                arrs.append(v.tolist() if self.chance(0.2) else v)
            kw["specified_drift_arrays"] = self.hold("drift arrays", arrs)
        ev = {"op": "exec", "o": o, "k": k, "style": style, "backend": backend, "err": "", "shape": [], "z": [], "v": [], "m": []}
        for name in ("pts", "axes", "mask"):
            if name in rq:
                ev[name] = rq[name]
        try:
            z, v = ob["real"].execute(style, *args, **kw)
            if self.focus in ("purity", "backend", "style") and not raw:
                # answers stay what they were
                self.hold("an earlier answer", z)
                self.hold("an earlier answer", v)
            if z.shape != v.shape:
                ev["shape"] = [-1]
            else:
                ev["shape"] = list(z.shape)
                mz, mv = np.ma.getmaskarray(z).ravel(), np.ma.getmaskarray(v).ravel()
                ev["m"] = [bool(a) if a == b else not excluded(ev, t, shape) for t, (a, b) in enumerate(zip(mz, mv))]
                zd, vd = np.ma.getdata(z).ravel(), np.ma.getdata(v).ravel()
                ev["z"] = [micro(t, self.vs) if not mm else 0 for t, mm in zip(zd, ev["m"])]
                ev["v"] = [micro(t, self.gscale(ob["s"])) if not mm else 0 for t, mm in zip(vd, ev["m"])]
                ev["z"] = [BAD if b == BAD else a for a, b in zip(ev["z"], ev["v"])]
                if style == "masked" and not (np.ma.isMaskedArray(z) and np.ma.isMaskedArray(v)):
                    ev["shape"] = [-2]
        except Exception as e:
            ev["err"] = f"{type(e).__name__}: {e}"[:200]
            z = v = None
        self.events.append(ev)
        return (z, v) if raw else ev

    def exec_among(self, o, rq, backend, k, fill):
        """the requested places among many others, whose answers are not logged"""
        import numpy as np

        ob, r = self.objs[o], self.r
        fr = ob["pres"]["fr"]
        rq = copy.deepcopy(rq)
        style = rq["style"]
        ev = {"op": "exec", "o": o, "k": k, "style": style, "backend": backend, "err": "", "shape": [], "z": [], "v": [], "m": [], "fill": fill}
        for name in ("pts", "axes", "mask"):
            if name in rq:
                ev[name] = rq[name]

        def spread(m, total):
            """m of total positions, the last one among them"""
            if m >= total:
                return list(range(m))
            at = sorted(r.sample(range(total - 1), m - 1)) + [total - 1]
            return at

        kw = {"backend": backend}
        if k:
            kw["n_closest_points"] = k
        if style == "points":
            at = spread(len(rq["pts"]), fill)
            total = max(fill, len(at))
            P = np.array([self.actual(p, fr) for p in self.universe])
            Q = P[np.arange(total) % len(P)]
            Q[at] = np.array([self.actual(p, fr) for p in rq["pts"]])
            args, shape, pick = list(Q.T.copy()), (total,), (np.array(at),)
        else:
            args, where = [], []
            per = max(1, round(fill ** (1.0 / self.dim)))
            for a, vals in enumerate(rq["axes"]):
                at = spread(len(vals), per + r.randrange(3))
                col = []
                for v in vals:
                    p = [0] * self.dim
                    p[a] = v
                    col.append(self.actual(p, fr)[a])
                more = []
                for v in self.axes[a]:
                    p = [0] * self.dim
                    p[a] = v
                    more.append(self.actual(p, fr)[a])
                full = np.array(more)[np.arange(at[-1] + 1) % len(more)]
                full[at] = col
                args.append(full)
                where.append(np.array(at))
            shape = tuple(len(a) for a in reversed(args))
            pick = np.ix_(*reversed(where))
            if style == "masked":
                m = np.random.RandomState(r.randrange(10**6)).rand(*shape) < 0.4
                mm = np.array(rq["mask"], dtype=bool)
                if mm.shape != tuple(len(a) for a in reversed(rq["axes"])):
                    mm = np.swapaxes(mm, 0, -1)
                m[pick] = mm
                kw["mask"] = m
                ev["mask"] = mm.tolist()
        try:
            z, v = ob["real"].execute(style, *args, **kw)
            if self.focus in ("purity", "backend", "style"):
                # answers stay what they were
                self.hold("an earlier answer", z)
                self.hold("an earlier answer", v)
            if z.shape != v.shape or z.shape != shape:
                ev["shape"] = [-1]
            else:
                mz, mv = np.ma.getmaskarray(z), np.ma.getmaskarray(v)
                if style == "masked" and not (np.array_equal(mz, kw["mask"]) and np.array_equal(mv, kw["mask"])):
                    ev["shape"] = [-2]
                else:
                    ev["shape"] = list(mz[pick].shape)
                    ev["m"] = [bool(t) for t in mz[pick].ravel()]
                    zd, vd = np.ma.getdata(z)[pick].ravel(), np.ma.getdata(v)[pick].ravel()
                    ev["z"] = [micro(t, self.vs) if not mm else 0 for t, mm in zip(zd, ev["m"])]
                    ev["v"] = [micro(t, self.gscale(ob["s"])) if not mm else 0 for t, mm in zip(vd, ev["m"])]
                    ev["z"] = [BAD if b == BAD else a for a, b in zip(ev["z"], ev["v"])]
        except Exception as e:
            ev["err"] = f"{type(e).__name__}: {e}"[:200]
        self.events.append(ev)
        return ev

    def stat(self, o, idx):
        """what the fit statistics say about the data idx (counted from 1)"""
        import numpy as np

        ob = self.objs[o]
        real, s = ob["real"], ob["s"]
        ev = {"op": "stat", "o": o, "idx": idx, "n": 0, "z": [], "v": [], "err": "", "eps": [], "sq": [], "lg": [], "q": [0, 0, 0]}
        try:
            d, g = np.asarray(real.delta, dtype=float), np.asarray(real.sigma, dtype=float)
            ev["n"] = int(d.size) if d.shape == g.shape else -1
            if ev["n"] == len(s["data"]) - 1:
                ev["z"] = [micro(self.value(s, s["data"][i - 1]) - d[i - 2], self.vs) for i in idx]
                ev["v"] = [micro(g[i - 2] ** 2, self.gscale(s)) for i in idx]
                # normalised residuals, and the logarithms of the variances, in
                # units in which sums of hundreds of them stay small
                u = self.vs / math.sqrt(self.gscale(s))
                eps, (q1, q2, cr) = np.asarray(real.get_epsilon_residuals(), dtype=float) / u, real.get_statistics()
                m = max(1.0, float(np.abs(eps).max()))
                ev["eps"] = [micro(t / m, 10.0) for t in eps]
                ev["sq"] = [micro((a / b / u / m) ** 2, 10.0) for a, b in zip(d, g)]
                ev["lg"] = [micro(math.log(b * b / self.gscale(s)), 10.0) for b in g]
                ev["q"] = [micro(q1 / u / m, 10.0), micro(q2 / (u * m) ** 2, 10.0),
                           micro(math.log(cr / q2 / self.gscale(s)), 10.0) if cr > 0 and q2 > 0 and math.isfinite(cr / q2) else BAD]
        except Exception as e:
            ev["err"] = f"{type(e).__name__}: {e}"[:200]
        self.events.append(ev)

    def gscale(self, s):
        return self.vs**2 if s["vario"]["how"] == "fit" else self.gs

    def rep(self, o, what):
        import numpy as np

        ob = self.objs[o]
        real, u = ob["real"], self.unit(ob["pres"]["fr"]["ui"])
        vals, err = [], ""
        try:
            if what == "points":
                if hasattr(real, "get_variogram_points"):
                    lag, gam = real.get_variogram_points()
                else:
                    lag, gam = real.lags, real.variogram_function(real.variogram_model_parameters, real.lags)
                vals = [micro(t, u) for t in lag] + [micro(t, 100 * self.gscale(ob["s"])) for t in gam]
            elif what == "experiment":
                vals = [micro(t, u) for t in real.lags] + [micro(t, 1e3 * self.vs**2) for t in real.semivariance]
            elif what == "stats":
                q = [float(t) for t in real.get_statistics()]
                vals = [micro(t, 100.0 * max(1.0, abs(t))) if math.isfinite(t) else BAD for t in q]
            else:
                vals = [micro(t, 100.0) for t in real.get_epsilon_residuals()]
        except Exception as e:
            err = f"{type(e).__name__}: {e}"[:200]
        self.events.append({"op": "rep", "o": o, "what": what, "vals": vals, "err": err})

    def args_check(self, o):
        """have the arguments handed over so far been changed?"""
        changed = [n for n, a, c in self.held if not same(a, c)]
        self.events.append({"op": "args", "o": o, "changed": bool(changed), "which": ",".join(changed)[:80]})
        self.held = []

    def clone(self, o, p, how):
        ob = self.objs[o]
        if how == "pickle":
            real = pickle.loads(pickle.dumps(ob["real"]))
        else:
            real = copy.deepcopy(ob["real"])
        self.objs[p] = {"real": real, "s": copy.deepcopy(ob["s"]), "pres": ob["pres"]}
        self.events.append({"op": "clone", "o": o, "p": p, "how": how})

    def bad(self, o, what, fn):
        err = ""
        try:
            fn()
        except Exception as e:
            err = f"{type(e).__name__}: {e}"[:200]
        self.events.append({"op": "bad", "o": o, "what": what, "err": err})

    def cells(self, axes):
        if len(axes) == 2:
            return [[x, y] for y in axes[1] for x in axes[0]]
        return [[x, y, z] for z in axes[2] for y in axes[1] for x in axes[0]]

    def backends(self, k=0, s=None):
        s = s or self.settings()
        c = ["C"] if s["cls"] == "ok" and s["vario"]["how"] not in ("custom", "gs") and s["vario"]["kind"] != "hole-effect" else []
        return (["loop"] if k else ["vectorized", "loop"]) + c

    def log(self):
        valid = (not self.geo) and self.focus == "exact"
        for ev in self.events:
            if ev["op"] == "new" and ev["s"]["vario"]["kind"] == "hole-effect":
                valid = False
            if ev["op"] == "upd":
                valid = False
        return {"id": self.ident, "focus": self.focus, "geo": getattr(self, "geo", False), "grid": self.grid, "tables": self.tables,
                "tol": 40, "vtol": 60, "valid": valid, "events": self.events}


# ------------------------------------------------------------------- helpers
def degrees(a):
    if a < 1000:
        return float(a)
    c, s = ((1, 0), (0, 1), (-1, 0), (0, -1), (4, 3), (3, 4), (-3, 4), (4, -3), (12, 5), (1, 1), (-1, 1))[a - 1001]
    return math.degrees(math.atan2(s, c))


def cosd(a):
    return (1.0, 0.0, -1.0, 0.0)[int(a // 90) % 4] if a % 90 == 0 else math.cos(math.radians(a))


def sind(a):
    return cosd(a - 90)


def R2(a):
    import numpy as np

    return np.array([[cosd(a), -sind(a)], [sind(a), cosd(a)]])


def R3(k, a):
    import numpy as np

    c, s = cosd(a), sind(a)
    return np.array([[[1, 0, 0], [0, c, -s], [0, s, c]], [[c, 0, s], [0, 1, 0], [-s, 0, c]], [[c, -s, 0], [s, c, 0], [0, 0, 1]]][k])


def rot2(q, a):
    return q if a % 360 == 0 else [float(t) for t in R2(a) @ q]


def rot3(q, rot):
    for k, a in enumerate(rot):
        if a % 360:
            q = [float(t) for t in R3(k, a) @ q]
    return q


def sphere(p, q):
    """great-circle distance in degrees (vector form)"""
    def vec(t):
        lo, la = math.radians(t[0]), math.radians(t[1])
        return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))

    a, b = vec(p), vec(q)
    cr = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return math.degrees(math.atan2(math.sqrt(sum(t * t for t in cr)), sum(s * t for s, t in zip(a, b))))


def place(p):
    return [0, p[1]] if abs(p[1]) == 90 else [p[0] % 360, p[1]]


def nested(shape, f):
    if len(shape) == 1:
        return [f() for _ in range(shape[0])]
    return [nested(shape[1:], f) for _ in range(shape[0])]


def swapends(m, d):
    import numpy as np

    return np.swapaxes(np.array(m), 0, d - 1).tolist()


def excluded(ev, t, shape):
    import numpy as np

    if ev["style"] != "masked":
        return False
    m = np.array(ev["mask"])
    if m.shape != shape:
        m = np.swapaxes(m, 0, -1)
    return bool(m.ravel()[t])


def snapshot(a):
    import numpy as np

    if isinstance(a, np.ndarray):
        return a.copy()
    if isinstance(a, (list, tuple)):
        return [snapshot(t) for t in a]
    if isinstance(a, dict):
        return {k: snapshot(t) for k, t in a.items()}
    return a


def same(a, c):
    import numpy as np

    if isinstance(c, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == c.shape and a.dtype == c.dtype and np.array_equal(a, c, equal_nan=a.dtype.kind == "f")
    if isinstance(c, list):
        return isinstance(a, (list, tuple)) and len(a) == len(c) and all(same(x, y) for x, y in zip(a, c))
    if isinstance(c, dict):
        return isinstance(a, dict) and list(a) == list(c) and all(same(a[k], c[k]) for k in c)
    return a is c or a == c


ALL = ("ok", "uk", "ok3d", "uk3d")
OKS = ("ok", "ok", "ok3d")


# --------------------------------------------------------------------- menus
def ep_exact(e):
    if not e.context(ALL, geo=0.3, nug=0.8):
        return
    b = e.r.choice(("vectorized", "loop", "C"))
    pts = [list(p) for p in e.data]
    if not e.geo and not e.drift and e.chance(0.4):
        # large coordinates: turning them rounds
        e.ui = 5
        e.off = [e.r.choice((0, 0, 3, -17)) for _ in range(e.dim)]
    for o, ex in enumerate((True, False)):
        e.new(o, e.settings(exact=ex))
    bb = b if b in e.backends() else "vectorized"
    if e.ident % 5 == 2 and not {"s1", "s2", "x", "y", "z", "xy", "ext"} & set(e.drift):
        # among many other places, data and not
        rq = e.draw_request()
        N = e.r.choice((150, 400, 1100))
        for o in (0, 1):
            e.exec(o, rq, bb, fill=N)
    for t in range(4):
        rq = e.draw_request()
        for o in (0, 1):
            e.exec(o, rq, bb)
        if e.cls in ("ok", "ok3d") and e.chance(0.6):
            k = e.r.randint(2, len(e.data))
            for o in (0, 1):
                e.exec(o, rq, e.r.choice(e.backends(k)), k)
    e.r.shuffle(pts)
    for o in (0, 1):
        e.exec(o, {"style": "points", "k": 0, "pts": pts}, bb)
    # one at a time
    for o in (0, 1):
        for p in pts[:3]:
            e.exec(o, {"style": "points", "pts": [p]}, e.r.choice(e.backends()))
            if e.cls in ("ok", "ok3d"):
                k = e.r.randint(2, len(e.data))
                e.exec(o, {"style": "points", "pts": [p]}, e.r.choice(e.backends(k)), k)


def ep_backend(e):
    if e.ident % 10 == 7:
        if e.context(OKS, aniso=0.0, stars=True, big=False):
            e.new(0, e.settings())
            ask_centres(e)
        return
    if e.ident % 15 == 4:
        # more data, and semivariances of any size
        e.sep_min = 2
        e.gs = e.r.choice((1.0, 1e7, 1e7, 1e-9))
        if not e.context(OKS, n=(32, 45), kinds=("linear", "exponential", "spherical"), nug=1.0):
            return
    elif not e.context(ALL, geo=0.3):
        return
    e.near_wells()
    if e.vario["p"][-1] > 0 and e.chance(0.35):
        # places sampled more than once
        had = e.data
        e.data = had + [list(e.r.choice(had)) for _ in range(e.r.randint(1, 2))]
        if not e.wellposed():
            e.data = had
    e.new(0, e.settings())
    if e.ident % 6 == 1 and not {"s1", "s2", "x", "y", "z", "xy"} & set(e.drift):
        # answers do not depend on how much is asked at once
        rq = e.draw_request()
        N = e.r.choice((900, 5000, 12000, 12000) if e.ident % 12 == 1 else (120, 300, 1100))
        if "ext" in e.drift:
            N = min(N, 900)
        for b in e.backends():
            e.exec(0, rq, b, fill=N)
        k = e.r.randint(2, len(e.data))
        if e.cls in ("ok", "ok3d"):
            for b in e.backends(k):
                e.exec(0, rq, b, k, fill=N)
        e.exec(0, rq, "loop")
    for t in range(4):
        rq = e.draw_request()
        for b in e.backends():
            e.exec(0, rq, b)
        if e.cls in ("ok", "ok3d"):
            k = e.r.randint(2, len(e.data))
            for b in e.backends(k):
                e.exec(0, rq, b, k)
    if e.chance(0.4):
        v = e.draw_vario()
        if v["p"][-1] == 0 and len(set(map(tuple, e.data))) < len(e.data):
            return
        e.upd(0, v)
        s = e.objs[0]["s"]
        if e.wellposed(s):
            rq = e.draw_request()
            for b in e.backends(0, s):
                e.exec(0, rq, b)


def ask_centres(e, b=None):
    """the centres of constellations together and one at a time"""
    for t in range(2):
        k = e.ray if t == 0 else e.r.randint(2, e.ray)
        cs = [list(c) for c in e.centres]
        e.r.shuffle(cs)
        for bb in [b] if b else [b for b in e.backends(k)]:
            e.exec(0, {"style": "points", "pts": cs + cs[:1]}, bb, k)
            for c in cs:
                e.exec(0, {"style": "points", "pts": [c]}, bb, k)


def ep_style(e):
    if e.ident % 8 == 5:
        if e.context(OKS, aniso=0.0, stars=True, big=False):
            e.new(0, e.settings())
            ask_centres(e)
        return
    if not e.context(ALL, geo=0.25):
        return
    e.near_wells()
    e.new(0, e.settings())
    b = e.r.choice(e.backends())
    k = e.r.randint(2, len(e.data)) if e.cls in ("ok", "ok3d") and b != "vectorized" and e.chance(0.3) else 0
    u = [list(p) for p in e.universe]
    e.r.shuffle(u)
    e.exec(0, {"style": "points", "pts": u[:24]}, b, k, forms=False)
    for t in range(6):
        e.exec(0, e.draw_request(e.r.choice(("grid", "masked", "masked", "points"))), b, k)
    if e.ident % 6 == 2 and not {"s1", "s2", "x", "y", "z", "xy", "ext"} & set(e.drift):
        for t in range(2):
            e.exec(0, e.draw_request(e.r.choice(("grid", "masked"))), b, k, fill=e.r.choice((150, 700, 3000)))
    for p in u[:3]:
        e.exec(0, {"style": "points", "pts": [p]}, b, k)


def ep_window(e):
    arc = e.chance(0.25)
    tiny = arc and e.ident % 2 == 0
    e.small = tiny
    many = not arc and e.chance(0.2)
    if many:
        # more data than one leaf of a search tree holds
        e.sep_min = 2
        if not e.context(OKS, rational=True, n=(40, 75), kinds=("linear", "exponential", "spherical"), nug=1.0):
            return
    elif not e.context(OKS, geo=1.0 if arc else 0.0, arc=arc, rational=True, n=(6, 11)):
        return
    if tiny and e.geo:
        # stations within thousandths of a degree
        e.ui = e.r.choice((6, 7, 9, 9))
        e.off = [e.r.choice((0, 13, 77, -130)), 0]
    n = len(e.data)
    if not e.geo and e.chance(0.5) and e.vario["kind"] in ("linear", "exponential") and e.kernel(e.vario)[1][0] <= 1.2:
        # places far outside the data
        far = 170 if e.dim == 2 else 100
        e.universe += [[e.r.choice((-1, 1)) * e.r.randint(far, far + 30) for _ in range(e.dim)] for _ in range(6)]
    e.new(0, e.settings())
    bs = e.backends(2)
    b = e.r.choice(bs)
    rqs = [e.draw_request() for _ in range(3)]
    for rq in rqs:
        e.exec(0, rq, "vectorized")
        e.exec(0, rq, b, n)
    subs = 0
    for t in range(3 if not many else 10):
        k = e.r.randint(2, n - 1) if not many else e.r.randint(2, 12)
        rq = e.r.choice(rqs)
        e.exec(0, rq, b, k)
        # an object that has only the nearest data of one requested position
        cells = rq["pts"] if rq["style"] == "points" else e.cells(rq["axes"])
        p = e.r.choice(cells)
        D = e.dist([p], e.data)[0]
        order = sorted(range(n), key=lambda i: D[i])
        sub = [e.data[i] for i in sorted(order[:k])]
        if k >= 2:
            o = 1 + subs
            subs += 1
            if e.new(o, e.settings(data=sub)):
                e.exec(o, {"style": "points", "pts": [p]}, "vectorized")


def ep_stats(e):
    """every datum predicted from those before it"""
    big = e.ident % 8 == 3
    huge = e.ident % 40 == 17
    if e.chance(0.3):
        e.gs = e.r.choice((1e-13, 1e-9, 1e7))
    if big or huge:
        e.sep_min = 2
    few = e.ident % 8 == 1
    n = (250, 300) if huge else (70, 140) if big else (3, 5) if few else (8, 16)
    if not e.context(OKS if few else ALL, geo=0.25, n=n, nug=0.8 if not big and not huge else 1.0,
                     kinds=("linear", "power", "exponential", "spherical")):
        return
    r = e.r
    stat = {"enable_statistics": True} if e.cls == "ok" else {}
    co = r.choice(([1, 0, 0], [1, 1, 2], [2, -1, 0]))
    if not e.new(0, e.settings(co=co), **stat):
        return
    N = len(e.data)
    three = e.cls.endswith("3d")
    o = 1
    for t in range(3):
        idx = sorted(set(r.sample(range(3, N + 1), 3) + [N, 2 + r.randrange(2)])) if N > 5 else list(range(2, N + 1))
        e.stat(0, idx)
        s = e.objs[0]["s"]
        for i in ([N] if t == 0 else []) + r.sample(idx, min(2, len(idx))):
            if i < (3 if few else 4):
                continue
            ref = dict(s, cls="ok3d" if three else "ok", drift=[], data=s["data"][: i - 1], exact=e.chance(0.5))
            if e.chance(0.3):
                ref["data"] = r.sample(ref["data"], len(ref["data"]))
            if e.wellposed(ref, ref["data"]) and e.new(o, copy.deepcopy(ref)):
                e.exec(o, {"style": "points", "pts": [s["data"][i - 1]]}, r.choice(("vectorized", "loop")))
                o += 1
        if t == 2 or e.chance(0.3):
            break
        ani = e.chance(0.4) and not e.geo
        e.upd(0, e.draw_vario(), *(e.draw_ani() if ani else ()))


def ep_history(e):
    if not e.context(ALL, geo=0.2, fit=0.3, n=(7, 10)):
        return
    r = e.r
    reps = ("points", "experiment", "stats", "eps")
    # the 2D ordinary class computes statistics on request
    stat = {"enable_statistics": True} if e.cls == "ok" else {}
    e.new(0, e.settings(), **stat)
    nxt = 1
    rq = e.draw_request("points")
    for t in range(r.randint(2, 4)):
        if e.chance(0.5):
            e.exec(0, rq if e.chance(0.5) else e.draw_request(), r.choice(e.backends(0, e.objs[0]["s"])))
        if e.chance(0.85):
            v = e.draw_vario(0.35)
            if not e.geo and e.chance(0.6):
                ang, sca = e.draw_ani() if e.chance(0.8) else (e.ang, e.sca)
            else:
                ang, sca = None, None
            s2 = dict(copy.deepcopy(e.objs[0]["s"]), vario=v, ang=ang or [0] * len(e.ang), sca=sca or [[1, 1]] * len(e.sca))
            if not e.wellposed(s2):
                continue
            e.upd(0, v, ang, sca)
        s = copy.deepcopy(e.objs[0]["s"])
        if e.new(nxt, s, fr=e.objs[0]["pres"]["fr"], **stat):
            for what in reps:
                e.rep(0, what)
                e.rep(nxt, what)
            b = r.choice(e.backends(0, s))
            rq2 = rq if e.chance(0.5) else e.draw_request()
            e.exec(nxt, rq2, b)
            e.exec(0, rq2, b)
            if e.cls in ("ok", "ok3d") and e.chance(0.4):
                k = r.randint(2, len(e.data))
                b = r.choice(e.backends(k, s))
                e.exec(nxt, rq2, b, k)
                e.exec(0, rq2, b, k)
        nxt += 1


def scramble(a):
    import numpy as np

    if isinstance(a, np.ndarray):
        if a.flags.writeable and a.size:
            if a.dtype == bool:
                a[...] = ~a
            else:
                a[...] = a * 3 + 11
    elif isinstance(a, list):
        for t, x in enumerate(a):
            if isinstance(x, (np.ndarray, list)):
                scramble(x)
            elif isinstance(x, bool):
                a[t] = not x
            elif isinstance(x, (int, float)):
                a[t] = x * 3 + 11
            else:
                a[t] = None
        if a and e_random.random() < 0.5:
            a.append(a[0])
    elif isinstance(a, dict):
        for k in list(a):
            a[k] = a[k] * 3 + 11


e_random = random.Random(5)


def ep_purity(e):
    global e_random
    if not e.context(ALL, geo=0.2, fit=0.15):
        return
    r = e_random = e.r
    twin = e.ident % 3 == 1 and e.vario["how"] != "fit" and e.vario["kind"] not in ("linear", "power")
    if twin:
        e.vario["how"] = r.choice(("custom", "custom", "psill", "list"))
        if not e.wellposed():
            return
    e.new(0, e.settings())
    other = twin or e.chance(0.5)
    if twin:
        # an object that differs in one thing only
        s = e.settings()
        if r.random() < 0.6:
            kinds = [k for k in ("spherical", "exponential", "gaussian", "hole-effect") if k != e.vario["kind"]]
            for kd in r.sample(kinds, 3):
                s["vario"] = dict(e.vario, kind=kd)
                if e.wellposed(s):
                    break
        elif r.random() < 0.5:
            s["exact"] = not s["exact"]
        elif not e.geo:
            s["ang"], s["sca"] = e.draw_ani()
        if not e.wellposed(s):
            s = e.settings(co=[0, 1, 2])
        e.new(1, s)
    elif other:
        e.new(1, e.settings(co=[0, 1, 2]))
    rqs = [e.draw_request() for _ in range(3)]
    bs = e.backends()
    if e.ident % 7 == 3 and not {"s1", "s2", "x", "y", "z", "xy", "ext"} & set(e.drift):
        b, rq = r.choice(bs), e.draw_request("points")
        for t in range(2):
            r.shuffle(e.universe)
            e.exec(0, rq, b, fill=r.choice((130, 130, 1100)))
    for rq in rqs:
        e.exec(0, rq, r.choice(bs))
        if other:
            e.exec(1, rq, r.choice(e.backends(0, e.objs[1]["s"])))
    e.args_check(0)
    for t in range(4):
        what = r.choice(("args", "result", "again", "clone", "other", "update"))
        if what == "args":
            # the caller changes everything it once passed
            for a in e.objs[0]["pres"]["args"]:
                scramble(a)
            for k, a in list(e.objs[0]["pres"]["kw"].items()):
                if k in ("variogram_parameters", "specified_drift", "functional_drift", "external_drift", "external_drift_x",
                         "external_drift_y", "point_drift", "drift_terms"):
                    scramble(a)
            e.held = []
            e.events.append({"op": "mut", "o": 0, "what": "arguments"})
            e.exec(0, r.choice(rqs), r.choice(bs))
            if e.chance(0.3):
                e.new(7, e.settings())
                e.exec(7, r.choice(rqs), "vectorized")
        elif what == "result":
            z, v = e.exec(0, rqs[0], r.choice(bs), raw=True)
            for a in (z, v):
                if a is not None:
                    a[...] = 77.0
                    if hasattr(a, "mask") and a.mask is not False and getattr(a.mask, "ndim", 0):
                        a.mask[...] = True
            e.events.append({"op": "mut", "o": 0, "what": "results"})
            e.exec(0, rqs[0], r.choice(bs))
        elif what == "clone":
            p = 10 + t
            e.clone(0, p, r.choice(("deepcopy", "pickle")))
            e.exec(p, r.choice(rqs), r.choice(bs))
            v = e.draw_vario()
            s2 = dict(copy.deepcopy(e.objs[p]["s"]), vario=v, ang=[0] * len(e.ang), sca=[[1, 1]] * len(e.sca))
            if e.wellposed(s2):
                e.upd(p, v)
                e.exec(p, r.choice(rqs), "vectorized")
            e.exec(0, r.choice(rqs), r.choice(bs))
        elif what == "other":
            v = e.draw_vario()
            if other and e.wellposed(dict(copy.deepcopy(e.objs[1]["s"]), vario=v, ang=[0] * len(e.ang), sca=[[1, 1]] * len(e.sca))):
                e.upd(1, v)
                e.exec(1, rqs[1], "vectorized")
            elif other:
                e.exec(1, rqs[1], "loop")
            e.exec(0, rqs[1], r.choice(bs))
        elif what == "update":
            # parameters handed to update, then changed by the caller
            s = e.objs[0]["s"]
            v = e.draw_vario(0.0)
            if e.wellposed(dict(copy.deepcopy(s), vario=v)):
                e.held = []
                e.upd(0, v, s["ang"], s["sca"])
                for n, a, c in e.held:
                    scramble(a)
                e.held = []
                bs = e.backends(0, e.objs[0]["s"])
                e.exec(0, r.choice(rqs), r.choice(bs))
        else:
            e.exec(0, r.choice(rqs), r.choice(bs))
            e.args_check(0)


def ep_reject(e):
    import numpy as np

    if not e.context(ALL, geo=0.2, fit=0.15, n=(7, 10)):
        return
    r = e.r
    stat = {"enable_statistics": True} if e.cls == "ok" else {}
    e.new(0, e.settings(), **stat)
    if e.objs[0]["real"] is None:
        return
    ob = e.objs[0]["real"]
    rq = e.draw_request("points")
    e.exec(0, rq, "vectorized")
    for what in ("points", "experiment", "stats", "eps"):
        e.rep(0, what)
    ani = {"anisotropy_scaling": 3.0, "anisotropy_angle": 25.0} if e.dim == 2 else {"anisotropy_scaling_y": 3.0, "anisotropy_angle_z": 25.0}
    if e.geo:
        ani = {}
    U = ob.update_variogram_model

    def boom(p, d):
        raise RuntimeError("user function")

    n = len(e.data)
    one = [np.array([1.0, 2.0])] * e.dim
    grid = [np.array([1.0, 2.0, 3.0])] + [np.array([1.0, 2.0])] * (e.dim - 1)
    def spec(shape):
        return {"specified_drift_arrays": [np.zeros(shape) for _ in e.objs[0]["pres"]["spec"]]} if e.objs[0]["pres"]["spec"] else {}
    menu = [
        ("unknown model", lambda: U("nonsense", [1.0, 2.0, 0.1], **ani)),
        ("too few parameters", lambda: U("spherical", [1.0, 2.0], **ani)),
        ("too many parameters", lambda: U("linear", [1.0, 2.0, 3.0], **ani)),
        ("missing key", lambda: U("exponential", {"sill": 1.0, "nugget": 0.1}, **ani)),
        ("missing sill", lambda: U("gaussian", {"range": 1.0, "nugget": 0.1}, **ani)),
        ("custom without function", lambda: U("custom", [1.0], **ani)),
        ("custom without parameters", lambda: U("custom", None, Custom("linear"), **ani)),
        ("custom with dictionary", lambda: U("custom", {"a": 1.0}, Custom("linear"), **ani)),
        ("function that fails", lambda: U("custom", [1.0, 1.0, 1.0], boom, **ani)) if e.cls != "ok" else ("no style", lambda: ob.execute("nonsense", *one, **spec(2))),
        ("string parameters", lambda: U("spherical", "abc", **ani)),
        ("bad lags", lambda: U("linear", None, None, 0, **ani)),
        ("bad style", lambda: ob.execute("nonsense", *one, **spec(2))),
        ("bad backend", lambda: ob.execute("points", *one, backend="nonsense", **spec(2))),
        ("mask missing", lambda: ob.execute("masked", *grid, **spec((2,) * (e.dim - 1) + (3,)))),
        ("mask shape", lambda: ob.execute("masked", *grid, mask=np.zeros((5,) * e.dim, bool), **spec((2,) * (e.dim - 1) + (3,)))),
        ("point lists", lambda: ob.execute("points", np.array([1.0, 2.0, 3.0]), *one[1:], **spec(2))),
    ]
    if e.cls in ("ok", "ok3d"):
        menu += [("window too small", lambda: ob.execute("points", *one, backend="loop", n_closest_points=1)),
                 ("window too large", lambda: ob.execute("points", *one, backend="loop", n_closest_points=n + 1))]
    if e.objs[0]["pres"]["spec"]:
        menu += [("drift values missing", lambda: ob.execute("points", *one)),
                 ("drift values shape", lambda: ob.execute("points", *one, **spec(3)))]
    if "ext" in e.drift:
        far = [np.array([1e9, 2e9])] * 2
        menu += [("outside the drift grid", lambda: ob.execute("points", *far, **spec(2)))] * 2
    for t in range(5):
        for what, fn in r.sample(menu, r.randint(1, 2)):
            e.bad(0, what, fn)
        rq2 = rq if e.chance(0.6) else e.draw_request()
        b = r.choice(e.backends())
        e.exec(0, rq2, b)
        if e.chance(0.6):
            e.new(1 + t, e.settings(), fr=e.objs[0]["pres"]["fr"], **stat)
            e.exec(1 + t, rq2, b)
        e.rep(0, r.choice(("points", "experiment", "stats", "eps")))
        if e.chance(0.3):
            v = e.draw_vario()
            s = e.objs[0]["s"]
            if e.wellposed(dict(copy.deepcopy(s), vario=v)):
                e.vario = v
                e.upd(0, v, s["ang"], s["sca"])
                for what in ("points", "experiment", "stats", "eps"):
                    e.rep(0, what)


def ep_data(e):
    if not e.context(ALL, geo=0.25):
        return
    r = e.r
    b = r.choice(e.backends())
    rqs = [e.draw_request() for _ in range(3)]
    k = r.randint(2, len(e.data)) if e.cls in ("ok", "ok3d") and b != "vectorized" and e.chance(0.4) else 0
    cos = [[1, 0, 0], [0, 1, 0], [1, 1, 0], [2, 0, 7], [-3, 0, 0], [0, 0, 5], [1, 0, -9], [0, -1, 40]]
    first = cos[:3]
    rest = r.sample(cos[3:], 3)
    for o, c in enumerate(first + rest):
        d = list(e.data)
        if e.chance(0.6):
            r.shuffle(d)
        e.new(o, e.settings(co=c, data=d))
        for rq in rqs if o < 2 else r.sample(rqs, 2):
            e.exec(o, rq, b, k)


def ep_drift(e):
    if not e.context(("uk", "uk", "uk3d"), drift=1.0, n=(7, 10), big=False, aniso=0.5):
        return
    if not e.drift:
        return
    r = e.r
    if any(c in ("fx", "fy", "fz", "fxy") for c in e.drift):
        # functional terms are evaluated in adjusted coordinates: their value
        # in base coordinates is known in an unturned, unstretched frame
        e.ang, e.sca = [0] * len(e.ang), [[1, 1]] * len(e.sca)
    if not e.wellposed():
        return
    e.make_tables()
    e.near_wells()
    b = r.choice(("vectorized", "loop"))
    codes = [{"fx": "x", "fy": "y", "fz": "z", "fxy": "xy"}.get(c, c) for c in e.drift_codes()]
    rqs = [e.draw_request() for _ in range(3)]
    for o in range(4):
        dco = [{"code": c, "d": r.choice((-1, 1, 2))} for c in codes if e.chance(0.8 if o else 0.0)][:3]
        co = [[1, 0, 0], [0, 0, 3], [1, 0, 0], [2, 0, -5]][o]
        e.new(o, e.settings(co=co, dco=dco))
        for rq in rqs:
            e.exec(o, rq, b)


def ep_external(e):
    """data made of the external grid's own values: interpolated exactly whatever the steps of its axes"""
    codes = ["ext"] + e.r.choice(([], ["lin"], ["s1"], ["lin", "s2"]))
    if not e.context(("uk",), drift=0.0, n=(7, 10), big=False, aniso=0.5):
        return
    r = e.r
    e.ui = r.choice((0, 1, 2, 4, 6, 8))
    if "lin" in codes and e.ui == 8:
        e.ui = 7
    if e.gs < 1e-3 or e.gs > 1e3 or (e.gs < 1 and e.ui == 1):
        e.gs = 1.0
    e.drift = list(codes)
    e.make_ext()
    if not e.wellposed():
        return
    e.make_tables()
    b = r.choice(("vectorized", "loop"))
    rqs = [e.draw_request() for _ in range(3)]
    for o in range(4):
        dco = [{"code": c, "d": r.choice((-1, 1, 2))} for c in codes if c != "lin" and (c == "ext" or e.chance(0.5))]
        e.new(o, e.settings(co=[[0, 0, 0], [1, 0, 0], [0, 0, 3], [2, 0, -5]][o], dco=dco if o != 1 else []))
        for rq in rqs:
            e.exec(o, rq, b)


def ep_equiv(e):
    r = e.r
    what = r.choice(("none", "plane", "terms", "terms"))
    b = r.choice(("vectorized", "loop"))
    if what == "none":
        if not e.context(("ok", "ok3d")):
            return
        three = e.cls == "ok3d"
        rqs = [e.draw_request() for _ in range(3)]
        e.new(0, e.settings())
        e.new(1, e.settings(cls="uk3d" if three else "uk"))
        for rq in rqs:
            e.exec(0, rq, b)
            e.exec(1, rq, b)
    elif what == "plane":
        if not e.context(("ok3d",), plane=True, aniso=0.0):
            return
        if e.chance(0.7):
            e.ang, e.sca = [r.choice((0, 360)), 0, r.choice(GOODANG2)], [r.choice(([2, 1], [1, 3], [3, 2])), r.choice(([2, 1], [1, 1], [1, 3]))]
        if not e.wellposed():
            return
        e.make_tables()
        three = e.settings(cls=r.choice(("ok3d", "uk3d")))
        rq3 = [e.draw_request() for _ in range(3)]
        e.new(0, three)
        for rq in rq3:
            e.exec(0, rq, b)
        # the same question in the plane
        z = e.data[0][2]
        ang, sca = e.ang, e.sca
        e.dim, e.cls = 2, r.choice(("ok", "uk"))
        e.data = [p[:2] for p in e.data]
        e.tables["basis"] += [{"p": t["p"][:2], "v": t["v"]} for t in e.tables["basis"] if t["p"][2] == z]
        e.ang, e.sca, e.rot, e.off = [ang[2]], [sca[0]], [0], e.off[:2]
        e.vario = dict(e.vario, gang=[0], gsca=[[1, 1]])
        e.universe = [p[:2] for p in e.universe if p[2] == z]
        e.axes = e.axes[:2]
        e.new(1, e.settings())
        for rq in rq3:
            q = copy.deepcopy(rq)
            if q["style"] == "points":
                q["pts"] = [p[:2] for p in q["pts"] if p[2] == z]
            else:
                q["axes"] = q["axes"][:2]
                if q["style"] == "masked":
                    q["style"] = "grid"
                    q.pop("mask")
            if q.get("pts") or q.get("axes"):
                e.exec(1, q, r.choice(("vectorized", "loop")))
    else:
        if not e.context(("uk", "uk", "uk3d"), drift=0.0, n=(8, 11), big=False):
            return
        lin = ["x", "y", "z"][: e.dim]
        full = ["f" + c for c in lin]
        extra = r.sample(["s1", "s2"], r.randint(0, 2)) + (["w1"] if e.dim == 2 and e.chance(0.3) else [])
        e.drift = ["lin"] + extra
        if not e.wellposed():
            return
        e.make_tables()
        alts = [["lin"] + extra, full + extra, lin + extra, extra[::-1] + lin[::-1], full[::-1] + extra[::-1]]
        rqs = [e.draw_request() for _ in range(3)]
        for o, d in enumerate(alts):
            e.new(o, e.settings(drift=d))
            for rq in rqs:
                e.exec(o, rq, b)


def ep_frame(e):
    codes = ["lin", "w1", "s1", "s2"]
    if not e.context(ALL, aniso=0.8, codes=codes if e.r.random() < 0.5 else None, big=False):
        return
    r = e.r
    if "w1" in e.drift or "w2" in e.drift or "fxy" in e.drift or "fx" in e.drift or "ext" in e.drift:
        turns = False
    else:
        turns = True
    if "fxy" in e.drift or "fx" in e.drift:
        return ep_frame(e) if len(e.events) == 0 and e.chance(0.9) else None
    b = r.choice(e.backends())
    k = 0
    rqs = [e.draw_request("points") for _ in range(2)] + [e.draw_request()]
    for o in range(5):
        s = e.settings()
        fr = e.frame()
        if o:
            fr = {"ui": r.choice((0, 2, 3)), "off": [r.choice((0, 7, -450, 90)) for _ in range(e.dim)], "rot": e.rot}
            if not e.drift and e.chance(0.25):
                fr["off"] = [r.choice((0, 5 * 10**6, -4 * 10**6)) for _ in range(e.dim)]
        if o >= 2 and turns:
            if e.dim == 2:
                t = r.choice((30, 90, -45, 137, 180))
                s["rot"] = [t]
                s["ang"] = [a + t if a < 1000 else a for a in s["ang"]]
                if e.chance(0.3):
                    s["ang"][0] += 180
                if s["sca"][0] == [1, 1]:
                    s["ang"] = [r.choice(GOODANG2)]
            else:
                axis = r.choice([0] + ([1] if s["ang"][0] == 0 else []) + ([2] if s["ang"][:2] == [0, 0] else []))
                t = r.choice((30, 90, -45, 137, 180))
                s["rot"] = [0, 0, 0]
                s["rot"][axis] = t
                s["ang"][axis] += t
                if s["sca"] == [[1, 1], [1, 1]]:
                    s["ang"] = [r.choice(GOODANG2) for _ in range(3)]
        elif o >= 3 and s["sca"] in ([[1, 1]], [[1, 1], [1, 1]]) and turns:
            s["ang"] = [r.choice(GOODANG2) for _ in s["ang"]]
        e.new(o, s, fr=fr)
        for rq in rqs:
            if rq["style"] != "points" and any(t % 360 for t in s["rot"]):
                continue
            e.exec(o, rq, b, k)
    # another anisotropy on the same object
    if e.chance(0.5):
        ang, sca = e.draw_ani()
        s2 = dict(copy.deepcopy(e.objs[0]["s"]), ang=ang, sca=sca)
        if e.wellposed(s2) and not ("w1" in e.drift or "w2" in e.drift):
            e.upd(0, e.vario, ang, sca)
            e.new(9, e.settings(ang=ang, sca=sca))
            for rq in rqs:
                e.exec(0, rq, b)
                e.exec(9, rq, b)


def ep_sphere(e):
    arc = e.r.random() < 0.3
    tiny = arc and e.r.random() < 0.4
    e.small = tiny
    if not e.context(("ok",), geo=1.0, arc=arc):
        return
    r = e.r
    if tiny:
        # the whole arc within thousandths of a degree
        e.ui = r.choice((6, 7))
    if not tiny and e.chance(0.3):
        # a datum at a pole, under several longitudes
        e.data[-1] = [r.randrange(360), 90]
        e.universe.append([r.randrange(360), 90])
        e.universe.append([r.randrange(360), -90])
        e.tables = {"basis": [], "s1": [], "s2": [], "w1": [], "w2": []}
        e.universe.append(list(e.data[-1]))
        if not e.wellposed():
            return
        e.make_tables()
    b = r.choice(e.backends())
    k = r.randint(2, len(e.data)) if b != "vectorized" and e.chance(0.5) else 0
    if k and (not arc or any(p[1] for p in e.data)):
        # windows on the sphere: only where the edge of the window separates
        ok = True
        for p in e.universe:
            D = sorted(e.dist([p], e.data)[0])
            if k < len(D) and D[k] - D[k - 1] < 1e-3:
                ok = False
        if not ok:
            k = 0
    rqs = [e.draw_request("points") for _ in range(2)] + [e.draw_request()]
    tags = [0, 1, -1, 0, 0]
    for o in range(5):
        off = r.choice((0, 0, 77, -180, 360, 13)) if o else 0
        salt = r.random()
        turn = None
        if o:
            tt = {}
            turn = lambda p, tt=tt: tt.setdefault(tuple(p), r.choice((0, 0, 1, -1)))
        d = [list(p) for p in e.data]
        if o and e.chance(0.5):
            for p in d:
                if abs(p[1]) == 90:
                    p[0] = r.randrange(360)
        e.new(o, e.settings(data=d), fr={"ui": e.ui, "off": [off, 0], "rot": [0], "turn": turn})
        for rq in rqs:
            e.exec(o, rq, b, k)


def ep_notation(e):
    if not e.context(ALL, geo=0.2, how=None):
        return
    r = e.r
    if e.cls.startswith("ok") and e.ident % 5 == 2:
        e.gs = r.choice((1e-9, 1e8))
    kind, (p0, p1, p2) = e.kernel(e.vario)
    base = dict(e.vario)
    forms = []
    T = lambda *a: [int(round(10 * t)) for t in a]
    if kind == "linear":
        forms = [("linear", "list", T(p0, p2)), ("linear", "psill", T(p0, p2)), ("power", "list", T(p0, 1.0, p2)), ("power", "psill", T(p0, 1.0, p2))]
    elif kind == "power":
        forms = [("power", "list", T(p0, p1, p2)), ("power", "psill", T(p0, p1, p2))]
    else:
        forms = [(kind, "list", T(p0 + p2, p1, p2)), (kind, "sill", T(p0 + p2, p1, p2)), (kind, "psill", T(p0, p1, p2)), (kind, "custom", T(p0, p1, p2))]
    r.shuffle(forms)
    b = r.choice(("vectorized", "loop"))
    rq = e.draw_request()
    for o, (kd, how, p) in enumerate(forms):
        v = dict(base, kind=kd, how=how, p=p)
        e.new(o, e.settings(vario=v))
        e.exec(o, rq, b)
        e.rep(o, "points")
    # and by update
    for kd, how, p in r.sample(forms, min(2, len(forms))):
        v = dict(base, kind=kd, how=how, p=p)
        e.upd(0, v, e.ang if not e.geo else None, e.sca if not e.geo else None)
        e.exec(0, rq, b)


def ep_gstools(e):
    if not e.context(ALL, geo=0.25, kinds=("gaussian", "exponential", "spherical"), how="psill"):
        return
    r = e.r
    if e.vario["kind"] == "gaussian" and e.vario["p"][2] == 0:
        e.vario["p"][2] = 3
    b = r.choice(("vectorized", "loop"))
    ang, sca = (e.ang, e.sca)
    gv = dict(e.vario, how="gs", gang=ang, gsca=sca)
    if e.geo:
        e.vario = dict(e.vario, kind=e.vario["kind"] + "-chord", how="custom")
    if not e.wellposed():
        return
    rqs = [e.draw_request() for _ in range(3)]
    e.new(0, e.settings())
    e.new(1, e.settings(vario=gv, ang=[0] * len(ang), sca=[[1, 1]] * len(sca)))
    for rq in rqs:
        for o in (0, 1):
            e.exec(o, rq, b)
    # by update, from a foreign start
    v0 = e.draw_vario(0.0, ("linear",))
    e.new(2, e.settings(vario=v0))
    e.upd(2, gv)
    for rq in rqs:
        e.exec(2, rq, b)
    # and back
    e.upd(2, e.vario, None if e.geo else ang, None if e.geo else sca)
    e.exec(2, rqs[0], b)
    if e.cls in ("ok", "ok3d"):
        k = r.randint(2, len(e.data))
        for o in (0, 1, 2):
            e.exec(o, rqs[1], "loop", k)


def ep_pinv(e):
    if not e.context(ALL, geo=0.2, big=False):
        return
    if e.cls.startswith("uk"):
        # columns of the size of the variogram keep the cut-off of small
        # singular values away from the solution
        e.ui, e.off = 0, [0] * e.dim
    r = e.r
    rqs = [e.draw_request() for _ in range(2)]
    for o, t in enumerate((None, "pinv", "pinvh")):
        e.new(o, e.settings(), pinv=t)
        for rq in rqs:
            for b in e.backends():
                e.exec(o, rq, b)
            if e.cls in ("ok", "ok3d"):
                k = 2 + (e.ident % (len(e.data) - 1))
                for b in e.backends(k):
                    e.exec(o, rq, b, k)


def record(task):
    return run(Ep(task["focus"], task["id"], task["seed"]), globals()["ep_" + task["focus"]])


def run(e, episode):
    with contextlib.redirect_stdout(io.StringIO()):
        episode(e)
    if "matplotlib.pyplot" in sys.modules:
        sys.modules["matplotlib.pyplot"].close("all")
    return e.log()


# --------------------------------------------------------------------- check
def judge(logs, workers=8):
    from vlib import build, tlc

    path = os.path.join(build.scratch(), f"trace-{os.getpid()}-{len(os.listdir(build.scratch()))}.json")
    with open(path, "w") as f:
        json.dump(logs, f)
    res = tlc.run("TraceSem", tlc.cfg(constants={"File": path}, view="View"), workers=workers, heap="6g", timeout=3000)
    os.remove(path)
    return res


def corrupt(log):
    """the same episode with one answer altered"""
    bad = copy.deepcopy(log)
    seen = set()
    for a, b in zip(bad["events"], bad["events"][1:]):
        if {a["op"], b["op"]} == {"exec", "pred"} and a["pts"] == b["pts"] and not a["err"] and not b["err"]:
            b["z"] = [t + 5000 for t in b["z"]]
            return bad
    for a, _, b in zip(bad["events"], bad["events"][1:], bad["events"][2:]):
        if (a["op"], b["op"]) == ("pred", "exec") and a["pts"] == b["pts"] and not a["err"] and not b["err"]:
            b["z"] = [t + 5000 for t in b["z"]]
            return bad
    for ev in bad["events"]:
        if ev["op"] in ("upd", "new", "clone"):
            seen = {k for k in seen if k[0] not in (ev["o"], ev.get("p"))}
        if ev["op"] == "exec" and not ev["err"] and not ev["k"]:
            key = (ev["o"], json.dumps([ev.get("pts"), ev.get("axes"), ev.get("mask")]))
            if key in seen:
                for t, m in enumerate(ev["m"]):
                    if not m:
                        ev["z"][t] += 5000
                        ev["v"][t] += 700000
                        return bad
            seen.add(key)
    return None


def distort(log):
    """the same episode with every answer of its later objects altered"""
    bad = copy.deepcopy(log)
    first = next((ev["o"] for ev in bad["events"] if ev["op"] in ("exec", "stat") and not ev["err"]), None)
    for ev in bad["events"]:
        if ev["op"] in ("exec", "pred") and not ev["err"] and (ev["o"] != first or log["focus"] == "exact"):
            ev["z"] = [t + 5000 + 700 * i for i, t in enumerate(ev["z"])]
            ev["v"] = [t + 70000 for t in ev["v"]]
    return bad


def check(ck, focus, count, suite="episodes"):
    from vlib import build, pool

    tasks = [{"focus": focus, "id": i, "seed": ck.seed} for i in range(count)]
    logs = pool.run(suite, "record", tasks)
    good, ids = [], []
    for t, g in zip(tasks, logs):
        if "crash" in g:
            ck.violation(f"[{focus}] episode {t['id']}: {g['crash']}"[:900], {"suite": suite, "func": "replay", "task": t})
        elif g["events"]:
            machinery = [r for r in g["events"] if r.get("op") == "machinery"]
            if machinery:
                raise build.Machinery(str(machinery[0]))
            good.append(g)
            ids.append(t)
        else:
            ck.count("contexts_dismissed_as_ill_posed")
    # one altered copy must be noticed: the judgement is not vacuous
    control = next((c for c in map(corrupt, good) if c), None)
    control = [control] if control else [distort(dict(g, focus=focus)) for g in good[:6]]
    res = judge(good + control)
    done = {r["ep"]: r["done"] for r in res.lines if "done" in r}
    fails = {}
    for r in res.lines:
        if "fails" in r:
            fails.setdefault(r["ep"], []).append(r)
    if len(done) != len(good) + len(control):
        raise build.Machinery("TLC did not judge every episode")
    caught = sum(len(good) + 1 + i in fails for i in range(len(control)))
    if control and not caught and not fails:
        raise build.Machinery("an altered episode was accepted")
    ck.count("altered_episodes_rejected", caught)
    if any("MACHINERY" in json.dumps(f) for f in fails.values()):
        raise build.Machinery("the harness logged inconsistent targets")
    for k, g in enumerate(good):
        ck.count("episodes_" + focus)
        ck.count("traces_validated_against_impl")
        ck.count("events_judged", len(g["events"]))
        ck.count("answers_judged", sum(len(ev.get("z", ())) for ev in g["events"]))
        ck.count("judgements", done[k + 1])
        if k + 1 in fails:
            f = min(fails[k + 1], key=lambda r: r["l"])
            ev = g["events"][f["l"] - 1]
            ck.violation(describe(focus, ids[k], g, f, ev), {"suite": suite, "func": "replay", "task": ids[k]})
    ck.count("states", res.distinct)
    ck.count("transitions", res.states)
    if good:
        g = good[len(good) // 2]
        ck.sample({"focus": focus, "episode": g["id"], "events": [{k: v for k, v in ev.items() if k not in ("z", "v", "m")} for ev in g["events"][:4]]})
    return res


def describe(focus, task, g, f, ev):
    brief = {k: v for k, v in ev.items() if k in ("op", "o", "style", "backend", "k", "what", "err", "which") and v not in ("", 0, None)}
    if ev["op"] in ("fit", "pred", "est", "setp"):
        brief["P"] = next(({k: v for k, v in x["P"].items() if k != "vario"} for x in g["events"] if x["op"] == "est"), {})
    s = next((x["s"] for x in reversed(g["events"][: f["l"]]) if x["op"] == "new" and x["o"] == ev.get("o")), {})
    st = {k: s.get(k) for k in ("cls", "geo", "exact", "drift", "ang", "sca", "rot", "co")}
    st["vario"] = {k: s["vario"][k] for k in ("kind", "how", "p")} if s else None
    return f"[{focus}] episode {task['id']} event {f['l']} {json.dumps(brief)}: {json.dumps(f['fails'])[:300]} object {json.dumps(st)}"


def replay(task):
    """for run.py replay: judge one episode again (in the worker)"""
    g = record(task)
    res = judge([g], workers=1)
    return {"bad": [r for r in res.lines if "fails" in r]}
