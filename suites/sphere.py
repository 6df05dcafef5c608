"""Distances on the sphere: conformance with spec/Sphere.tla."""
import math
import random
from fractions import Fraction

UNITS = (1.0, 1e-3, 1e-6, 1e-9)


def degrees(a):
    return math.degrees(math.atan2(a[1], a[0]))


def arc(cos, sin2):
    """the distance in degrees, from the exact cosine and squared sine"""
    n, d = cos
    # both over the same denominator d (sin2 over d squared)
    return math.degrees(math.atan2(math.sqrt(Fraction(sin2, d * d)), n / d))


def rows(task):
    import numpy as np
    from pykrige import core

    bad, n = [], 0
    r = random.Random(task["seed"])
    for line in task["rows"]:
        p, row = line["p"], line["row"]
        lon1, lat1 = degrees(p["lon"]), degrees(p["lat"])
        lon2 = np.array([degrees(x["q"]["lon"]) + r.choice((0, 0, 0, 360, -360)) for x in row])
        lat2 = np.array([degrees(x["q"]["lat"]) for x in row])
        want = np.array([arc(x["cos"], x["sin2"]) for x in row])
        # the rounding of coordinates in degrees, and no more
        tol = 2e-12
        shape = r.choice(("scalar", "array", "column", "swap"))
        if shape == "scalar":
            got = core.great_circle_distance(lon1, lat1, lon2, lat2)
        elif shape == "array":
            got = core.great_circle_distance(np.full(lon2.shape, lon1), np.full(lon2.shape, lat1), lon2, lat2)
        elif shape == "column":
            got = core.great_circle_distance(np.array([[lon1], [lon1]]), np.array([[lat1], [lat1]]), lon2, lat2)
            if np.shape(got) != (2, len(row)):
                bad.append(f"a column and a row of places give distances of the shape {np.shape(got)}")
                continue
            got = got[1]
        else:
            got = core.great_circle_distance(lon2, lat2, np.array([lon1]), np.array([lat1]))
        if np.shape(got) != (len(row),):
            bad.append(f"the distances of one place to {len(row)} have the shape {np.shape(got)}")
            continue
        n += len(row)
        off = np.where(~(np.abs(got - want) <= tol))[0]
        if len(off):
            k = off[0]
            bad.append(f"({lon1}, {lat1}) and ({lon2[k]}, {lat2[k]}) are {want[k]} degrees apart, not {got[k]}")
        one = core.great_circle_distance(lon1, lat1, float(lon2[0]), float(lat2[0]))
        if not abs(float(one) - want[0]) <= tol:
            bad.append(f"single places ({lon1}, {lat1}) and ({lon2[0]}, {lat2[0]}) are {want[0]} degrees apart, not {one}")
        # from the straight distance, whose square is 2 - 2 cos
        chord = np.array([math.sqrt(Fraction(2 * (x["cos"][1] - x["cos"][0]), x["cos"][1])) for x in row])
        keep = chord.copy()
        near = want < 179.0
        back = core.euclid3_to_great_circle(chord)
        n += len(row)
        if not np.array_equal(chord, keep):
            bad.append("euclid3_to_great_circle changed its argument")
        if np.shape(back) != chord.shape or not np.all(np.abs(back - want)[near] <= 1e-11) or not np.all(np.abs(back - want)[~near] <= 1e-5):
            bad.append(f"euclid3_to_great_circle is not the arc over the chord (place {lon1}, {lat1})")
    return {"bad": bad, "n": n}


def laws(task):
    import numpy as np
    from pykrige import core

    bad, n = [], 0
    a = np.array([x["a"] for x in task["rows"]], dtype=float)
    d = np.array([x["d"] for x in task["rows"]], dtype=float)
    got = core.great_circle_distance(a[:, 0], a[:, 1], a[:, 2], a[:, 3])
    n += len(d)
    off = np.where(~(np.abs(got - d) <= 1e-12))[0]
    if len(off):
        k = off[0]
        bad.append(f"{list(a[k])} are {d[k]} degrees apart, not {got[k]}")
    # the same laws for places nearly the same or nearly opposite
    for lon, lat, s in ((0.0, 0.0, 1), (77.25, -33.5, 1), (-179.9, 60.0, -1), (180.0, 12.0, -1)):
        for u in UNITS:
            for m in (1, 3, 7):
                delta = (lat + s * m * u) - lat
                for x2, y2, want in ((lon, lat + delta, abs(delta)), (lon + 360, lat + delta, abs(delta)), (lon - 180, -(lat + delta), 180 - abs(delta))):
                    got = float(core.great_circle_distance(lon, lat, x2, y2))
                    n += 1
                    # coordinates in radians have roundings of their own
                    if not abs(got - want) <= 2e-13 + 1e-14 * abs(lat) + 2e-13 * (want > 90):
                        bad.append(f"({lon}, {lat}) and ({x2}, {y2}) are {want} degrees apart, not {got}")
    for u in UNITS + (1e-12, 1e-15):
        for m in (1, 3, 7):
            for x1, x2, want in ((0.0, m * u, m * u), (-m * u, m * u, 2 * m * u), (0.0, 360.0 - m * u, 360.0 - (360.0 - m * u))):
                got = float(core.great_circle_distance(x1, 0.0, x2, 0.0))
                n += 1
                if not abs(got - want) <= 2e-13 + 1e-12 * want:
                    bad.append(f"places on the equator at {x1} and {x2} are {want} degrees apart, not {got}")
    return {"bad": bad[:5], "n": n}


def check(ck):
    from vlib import build, pool, tlc

    def tl(mode, step=90, inv=()):
        return tlc.run("Sphere", tlc.cfg(constants=dict(Mode=mode, Step=step), invariants=inv), workers=4)

    step = 15 if ck.thorough else 30
    res = tl("check", inv=("OnTheSphere", "Consistent", "Symmetric", "SamePlace"))
    ck.count("states", res.distinct)
    table, law = tl("emit"), tl("laws", step, ("LawHolds",))
    if len(table.lines) != 220:
        raise build.Machinery("TLC did not emit every place")
    places = sorted(table.lines, key=repr)
    for line in places:
        line["row"].sort(key=repr)
    tasks = [("rows", {"seed": ck.seed * 1000 + i, "rows": places[i:i + 20]}) for i in range(0, len(places), 20)]
    ls = sorted(law.lines, key=repr)
    ck.count("states", law.distinct)
    tasks += [("laws", {"rows": ls[i:i + 4000]}) for i in range(0, len(ls), 4000)]
    for name in ("rows", "laws"):
        todo = [t for f, t in tasks if f == name]
        for t, g in zip(todo, pool.run("sphere", name, todo)):
            rep = {"suite": "sphere", "func": name, "task": t}
            if "crash" in g:
                ck.violation(f"[sphere] {name}: {g['crash']}"[:900], rep)
                continue
            ck.count("distances_compared", g["n"])
            ck.count("traces_validated_against_impl", g["n"])
            for text in g["bad"][:1]:
                ck.violation(f"[sphere] {text}", rep)
    ck.sample({"law": ls[len(ls) // 2]})
