"""Which suites decide which property."""
from suites import binning, compose, conc, episodes, estimators, exact, fits, gridfiles, large, lifecycle, requests, sphere, vario


def N(ck, quick, thorough):
    return thorough if ck.thorough else quick


def E(focus, quick=300, thorough=6000):
    """exact answers (spec/Scenarios.tla)"""
    def part(ck):
        exact.check(ck, focus, N(ck, quick, thorough))

    return part


def T(focus, quick=400, thorough=6000):
    """recorded episodes (spec/TraceSem.tla)"""
    def part(ck):
        episodes.check(ck, focus, N(ck, quick, thorough))

    return part


def X(focus, quick=200, thorough=5000):
    """exact answers for many data (spec/Large.tla)"""
    def part(ck):
        large.check(ck, focus, N(ck, quick, thorough))

    return part


def V():
    """variogram terms (spec/VarioTerm.tla)"""
    return vario.check


def B(quick=1000, thorough=20000):
    """experimental variograms (spec/Binning.tla)"""
    def part(ck):
        binning.check(ck, N(ck, quick, thorough))

    return part


def F(quick=500, thorough=6000):
    """automatic fits (spec/FitTrace.tla)"""
    def part(ck):
        fits.check(ck, N(ck, quick, thorough))

    return part


def G(only, quick=300, thorough=5000):
    """histories of grid files (spec/GridFiles.tla)"""
    def part(ck):
        gridfiles.check(ck, N(ck, quick, thorough), only)

    return part


def K(focus, quick=300, thorough=4000):
    """estimator episodes (spec/TraceSem.tla)"""
    def part(ck):
        estimators.check(ck, focus, N(ck, quick, thorough))

    return part


def P(quick=250, thorough=4000):
    """compositions and classification (spec/Composition.tla)"""
    def part(ck):
        compose.check(ck, N(ck, quick, thorough), *N(ck, (5, 4), (6, 5)))

    return part


def L(focus, quick=250, thorough=5000):
    """the life of kriging objects (spec/Lifecycle.tla)"""
    def part(ck):
        lifecycle.check(ck, focus, N(ck, quick, thorough), ck.thorough)

    return part


def Q(tables, quick=1500, thorough=20000):
    """the domain of constructions and requests (spec/Requests.tla)"""
    def part(ck):
        requests.check(ck, tables, N(ck, quick, thorough))

    return part


def S():
    """schedules of concurrent and nested requests (spec/Conc.tla)"""
    def part(ck):
        conc.check(ck, N(ck, 1, 3))

    return part


def run(*parts):
    def fn(ck):
        for p in parts:
            p(ck)

    return fn


MC = "model_checking"
CHECKS = {
    "C01": (MC, run(T("exact"), E("system", 150), exact.repeated)),
    "C02": (MC, run(E("system", 500), X("all"), exact.repeated)),
    "C03": (MC, run(T("backend"), E("system", 200), X("all"))),
    "C04": (MC, run(T("style"), E("style", 200))),
    "C05": (MC, run(T("window"), E("window", 200), X("window"))),
    "C06": (MC, run(L("update"), T("history", 250))),
    "C07": (MC, run(L("pure"), T("purity", 300))),
    "C08": (MC, run(L("reject"), T("reject", 300), G("refuse", 150))),
    "C09": (MC, run(T("data"))),
    "C10": (MC, run(T("drift"), E("drift", 200), X("drift"))),
    "C11": (MC, run(T("equiv"))),
    "C12": (MC, run(T("frame"), E("frame", 200))),
    "C13": (MC, run(sphere.check, T("sphere", 300), E("sphere", 200))),
    "C14": (MC, run(Q(("params",)), T("notation", 250))),
    "C15": (MC, run(V())),
    "C16": (MC, run(B())),
    "C17": (MC, run(F())),
    "C18": (MC, run(T("stats", 150), E("stats", 300))),
    "C19": (MC, run(G("asc"))),
    "C20": (MC, run(G("zmap"))),
    "C21": (MC, run(K("wrap"), K("search", 120, 1500))),
    "C22": (MC, run(K("regress", 350))),
    "C23": (MC, run(P())),
    "C24": (MC, run(Q(("cover",)), E("external", 250), T("external", 200))),
    "C25": (MC, run(E("pinv", 200), T("pinv", 250), L("pinv", 150))),
    "C26": (MC, run(Q(("request", "mask", "array", "ctor", "drift", "sk")))),
    "C27": (MC, run(Q(("gs",)), T("gstools", 350))),
    "C28": (MC, run(S())),
}
