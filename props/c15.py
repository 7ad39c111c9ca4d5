"""C15 Computed g-functions are those of the requested field and boundary condition."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from vf import field, heat
from vf.core import Sub
from vf.util import expect, expect_close

ID = "C15"
RULE = ("fields of one to nine boreholes in regular or irregular positions, single, multiple and coaxial heat exchangers, one to three heights (with their own radius and depth), the three "
        "boundary conditions, unequal, equal and explicit segments, equivalent and similarities solvers; ground heat exchangers that recompute their g-functions for their height limits; non-trivial = at least two boreholes and two heights")
ASSUMPTIONS = ["pygfunction, called directly with boreholes, pipe models and a network built by the check, is the reference", "agreement to 1e-6 relative"]
REL = 1e-6


def pipe_model(c, b):
    """pygfunction's own pipe model of the configuration in borehole b."""
    cfg = dict(c, H=b.H, D=b.D, r_b=b.r_b)
    cls, m, fl, _, pipe, grout, soil = heat.parts(cfg)
    return cls(m, fl, b, pipe, grout, soil), m, fl


def reference(c, H, r_b, D, xy, log_time, boundary, options, solver, lean=()):
    import pygfunction as gt
    full = dict(heat.U_TUBE, **c)
    alpha = full["k_s"] / full["rc_s"]
    t = np.exp(np.asarray(log_time, dtype=float)) * H * H / (9.0 * alpha)
    boreholes = [gt.boreholes.Borehole(H, D, r_b, x, y, *lean) for x, y in xy]
    if boundary == "MIFT":
        models = [pipe_model(full, b) for b in boreholes]
        _, m, fl = models[0]
        target = gt.networks.Network(boreholes, [x[0] for x in models], m_flow_network=m * len(boreholes), cp_f=fl.cp)
    else:
        target = boreholes
    return gt.gfunction.gFunction(target, alpha, time=t, boundary_condition=boundary, options=options, method=solver).gFunc


def settings_of(case):
    """(keyword arguments, pygfunction options) of the segments, boundary and solver of a case."""
    import pygfunction as gt
    kw = {}
    n = case["n_seg"]
    if n != 8:
        kw["nSegments"] = n
    s = case["segments"]
    opt = {"nSegments": n, "disp": False}
    if s == "default":
        opt["segment_ratios"] = gt.utilities.segment_ratios(n, end_length_ratio=0.02)
    elif s == "unequal":
        kw["segments"] = case["spelling"]
        opt["segment_ratios"] = gt.utilities.segment_ratios(n, end_length_ratio=0.02)
    elif s == "equal":
        kw["segments"] = "equal"
        opt["segment_ratios"] = None
    else:
        r = np.array([1.0 + 0.5 * (i % 3) for i in range(n)])
        kw["segments"] = "unequal"
        kw["segment_ratios"] = opt["segment_ratios"] = r / r.sum()
    if case["boundary"] != "default":
        kw["boundary"] = case["boundary"]
    if case["solver"] != "default":
        kw["solver"] = case["solver"]
    return kw, opt, "MIFT" if case["boundary"] == "default" else case["boundary"], "equivalent" if case["solver"] == "default" else case["solver"]


def positions(case):
    f = case["field"]
    if f["kind"] == "rect":
        return [(i * f["B"], j * f["B"]) for i in range(f["nx"]) for j in range(f["ny"])]
    return [(float(x) * f["B"], float(y) * f["B"]) for x, y in f["cells"]]


def check(case, lab):
    import ghedt as dt
    cls, m, fl, b, pipe, grout, soil = heat.parts(case["bhe"])
    xy = positions(case)
    keep_xy = list(xy)
    hs, rb, ds, lt = list(case["heights"]), list(case["r_b"]), list(case["D"]), list(case["log_time"])
    kw, opt, boundary, solver = settings_of(case)

    def snap():
        return copy.deepcopy([pipe.pos, pipe.r_in, pipe.r_out, pipe.s, pipe.k, pipe.rhoCp, pipe.eps, grout.k, grout.rhoCp, soil.k, soil.rhoCp, soil.ugt, fl.cp, fl.mu, fl.rho, xy, hs, rb, ds, lt,
                              b.H, b.D, b.r_b])

    before = snap()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = dt.gfunction.compute_live_g_function(case["field"]["B"], hs, rb, ds, m, cls, lt, xy, fl, pipe, grout, soil, **kw)
    after = snap()
    expect(str(before) == str(after), "computing g-functions changes the inputs: %s -> %s", before, after)
    expect(sorted(g.g_lts) == sorted(hs), "the heights %s are stored as %s", hs, sorted(g.g_lts))
    expect(abs(g.B - case["field"]["B"]) < 1e-12 and [tuple(p) for p in g.bore_locations] == keep_xy and list(g.log_time) == lt, "spacing, positions or times are not those requested")
    lab(boundary, solver, case["segments"], case["bhe"]["type"])
    lab.nt(len(xy) > 1 and len(hs) > 1)
    for H, r, D in zip(hs, rb, ds):
        what = "%s g-function of %d boreholes at %r m (radius %r, depth %r, %s segments, %s)" % (boundary, len(xy), H, r, D, case["segments"], solver)
        expect_close(g.r_b_values[H], r, what + ": stored radius", rel=1e-12)
        expect_close(g.D_values[H], D, what + ": stored depth", rel=1e-12)
        ref = reference(case["bhe"], H, r, D, keep_xy, lt, boundary, opt, solver)
        got = g.g_lts[H]
        expect(len(got) == len(lt), "%s has %d values at %d times", what, len(got), len(lt))
        for t, a, e in zip(lt, got, ref):
            expect_close(float(a), float(e), "%s at ln(t/ts) = %r" % (what, t), rel=REL, abs_=1e-7)


def check_single(case, lab):
    """calculate_g_function for one borehole geometry at times in seconds; the given borehole only serves as the geometry."""
    import ghedt as dt
    import pygfunction as gt
    cls, m, fl, _, pipe, grout, soil = heat.parts(case["bhe"])
    xy = positions(case)
    kw, opt, boundary, solver = settings_of(case)
    full = dict(heat.U_TUBE, **case["bhe"])
    H, r, D = case["heights"][0], case["r_b"][0], case["D"][0]
    lean = tuple(case.get("lean", ()))
    if lean:                                     # inclined boreholes, which one of the solvers handles
        kw["solver"] = solver = "similarities"
        lab("inclined")
    b = gt.boreholes.Borehole(H, D, r, 3.0, -4.0, *lean)
    ts = H * H / (9 * full["k_s"] / full["rc_s"])
    t = np.exp(np.asarray(case["log_time"])) * ts
    if "end_ratio" in case and case["segments"] in ("default", "unequal"):
        kw["end_length_ratio"] = case["end_ratio"]
        opt["segment_ratios"] = gt.utilities.segment_ratios(case["n_seg"], end_length_ratio=case["end_ratio"])
    gf = dt.gfunction.calculate_g_function(m, cls, t, list(xy), b, fl, pipe, grout, soil, **kw)
    ref = reference(case["bhe"], H, r, D, xy, case["log_time"], boundary, opt, solver, lean)
    expect((b.H, b.D, b.r_b, b.x, b.y, b.tilt, b.orientation) == (H, D, r, 3.0, -4.0) + (lean or (0.0, 0.0)), "the given borehole changed")
    lab(boundary, case["segments"])
    lab.nt(len(xy) > 1)
    for x, a, e in zip(case["log_time"], gf.gFunc, ref):
        expect_close(float(a), float(e), "%s g-function of %d boreholes at %r m, ln(t/ts) = %r (%s segments)" % (boundary, len(xy), H, x, case["segments"]), rel=REL, abs_=1e-7)


def check_recompute(case, lab):
    """A ground heat exchanger replaces its g-functions by those of its own field, borehole and height limits."""
    lo, hi = case["limits"]
    xy = positions(case)
    full = dict(heat.U_TUBE, **case["bhe"])
    ghe = field.make({"bhe": case["bhe"], "field": {"B": case["field"]["B"], "nx": len(xy), "ny": 1, "heights": case["before"], "r_b": [0.06] * len(case["before"])},
                      "start": 1, "end": 12, "limits": [35.0, 5.0, hi, lo]}, LOAD)
    ghe.GFunction.bore_locations = list(xy)
    ghe.GFunction.log_time = list(case["log_time"])
    if case["height"] is not None:
        ghe.bhe.b.H = case["height"]
    for _ in range(case["times"]):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ghe.compute_g_functions()
    g = ghe.GFunction
    hs = [lo, (lo + hi) / 2.0, hi]
    expect(sorted(g.g_lts) == sorted(set(hs)), "g-functions are computed at %s for limits %r and %r", sorted(g.g_lts), lo, hi)
    expect([tuple(p) for p in g.bore_locations] == xy and abs(g.B - case["field"]["B"]) < 1e-12 and list(g.log_time) == list(case["log_time"]), "the field or the times change when g-functions are computed")
    lab(case["bhe"]["type"], "%d times" % case["times"])
    lab.nt(len(xy) > 1)
    opt = settings_of({"n_seg": 8, "segments": "default", "boundary": "default", "solver": "default"})[1]
    for H in hs:
        what = "recomputed g-function of %d boreholes at %r m (radius %r, depth %r)" % (len(xy), H, full["r_b"], full["D"])
        expect_close(g.r_b_values[H], full["r_b"], what + ": stored radius", rel=1e-12)
        expect_close(g.D_values[H], full["D"], what + ": stored depth", rel=1e-12)
        ref = reference(case["bhe"], H, full["r_b"], full["D"], xy, case["log_time"], "MIFT", opt, "equivalent")
        expect(len(g.g_lts[H]) == len(ref), "%s has %d values at %d times", what, len(g.g_lts[H]), len(ref))
        for t, a, e in zip(case["log_time"], g.g_lts[H], ref):
            expect_close(float(a), float(e), "%s at ln(t/ts) = %r" % (what, t), rel=REL, abs_=1e-7)


LOAD = [0.0] * 8760


def check_reject(case, lab):
    import ghedt as dt
    cls, m, fl, b, pipe, grout, soil = heat.parts({"type": "single"})
    lab.nt()
    try:
        dt.gfunction.compute_live_g_function(5.0, [100.0], [0.075], [2.0], m, cls, [-8.0, 0.0], [(0.0, 0.0)], fl, pipe, grout, soil, **case)
    except ValueError:
        return
    expect(False, "%s is accepted", case)


@st.composite
def cases(draw):
    c = {"bhe": draw(heat.configs(kinds=("single", "single", "multiple", "coaxial")))}
    f = {"kind": draw(st.sampled_from(["rect", "cells"])), "B": draw(st.sampled_from([5.0, 6.0, 4.45, 8.0, 3.2, 20.0 / 3.0, 5.123456789]))}
    if f["kind"] == "rect":
        f["nx"], f["ny"] = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    else:
        f["cells"] = [list(p) for p in draw(st.lists(st.tuples(st.integers(-2, 3), st.integers(0, 3)), min_size=1, max_size=6, unique=True))]
    c["field"] = f
    n = draw(st.sampled_from([1, 2, 2, 3]))
    hs = draw(st.lists(st.one_of(st.sampled_from([60.0, 135.0, 96.0, 24.0]), st.builds(lambda x: round(x, 2), st.floats(20.0, 300.0))), min_size=n, max_size=n, unique=True))
    c["heights"] = hs
    base = dict(heat.U_TUBE, **c["bhe"])["r_b"]
    c["r_b"] = [draw(st.sampled_from([base, base, round(base * 1.05, 5)])) for _ in hs]
    c["D"] = [draw(st.sampled_from([2.0, 2.0, 4.0, 1.0, 0.5])) for _ in hs]
    k = draw(st.sampled_from([3, 5, 8]))
    c["log_time"] = [-8.5, 3.003] if k == 2 else [round(-8.5 + 11.5 * i / (k - 1), 3) for i in range(k)]
    c["boundary"] = draw(st.sampled_from(["default", "MIFT", "UBWT", "UHTR", "UBWT"]))
    c["segments"] = draw(st.sampled_from(["default", "default", "default", "unequal", "equal", "ratios"]))
    c["spelling"] = draw(st.sampled_from(["unequal", "Unequal", "UNEQUAL"]))
    c["n_seg"] = draw(st.sampled_from([8, 8, 8, 5, 12]))
    c["solver"] = draw(st.sampled_from(["default", "default", "default", "similarities"]))
    return c


@st.composite
def singles(draw):
    c = draw(cases())
    if draw(st.booleans()):
        c["end_ratio"] = draw(st.sampled_from([0.02, 0.05, 0.01]))
    if draw(st.integers(0, 3)) == 0:
        c["lean"] = [draw(st.sampled_from([0.1, 0.3, 0.5])), draw(st.sampled_from([0.0, 0.7, 3.0]))]
    return c


@st.composite
def recomputes(draw):
    c = draw(cases())
    lo = draw(st.one_of(st.sampled_from([60.0, 20, 45.5]), st.builds(lambda x: round(x, 1), st.floats(15.0, 120.0))))
    return {"bhe": c["bhe"], "field": c["field"], "log_time": c["log_time"], "limits": [lo, lo + draw(st.sampled_from([15.0, 75.0, 40, 150.5]))],
            "before": draw(st.sampled_from([[100.0], [60.0, 135.0], [24.0, 48.0, 96.0]])), "height": draw(st.sampled_from([None, 60.0, 111.0])),
            "times": draw(st.sampled_from([1, 1, 2]))}


SUBCHECKS = [
    Sub("reject", check_reject, cases=lambda tier: [{"boundary": "mift"}, {"boundary": "XXXX"}, {"segments": "random"}, {"boundary": ""}], shards=1),
    Sub("live", check, cases, quick=300, thorough=4000),
    Sub("single", check_single, singles, quick=160, thorough=2000),
    Sub("recompute", check_recompute, recomputes, quick=64, thorough=1000),
]
