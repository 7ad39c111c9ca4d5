"""C14 g-function interpolation reproduces its curves, independent of history."""
import copy
import json
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub
from vf.util import expect, expect_close

ID = "C14"
RULE = ("g-function sets of one to seven heights with random curves, radii and depths, built directly or loaded from a database document, interpolated by a random sequence of "
        "calls (own heights, within 1e-6 m of them, in between, outside; all interpolation kinds); non-trivial = at least two calls of which two differ in kind or in range")
ASSUMPTIONS = ["scipy's make_interp_spline (degree 1, 2, 3) and the barycentric Lagrange polynomial are the reference", "agreement to 1e-7 of the largest curve value (times the amplification of the extrapolation)",
               "outside of the range means by more than 1e-6 m, within the heights extrapolated at most by their span"]
REQ = {"linear": 2, "quadratic": 3, "cubic": 4}


def build(spec):
    import ghedt as dt
    hs = spec["heights"]
    g = {h: c for h, c in zip(hs, spec["g"])}
    return dt.gfunction.GFunction(B=spec["B"], r_b_values=dict(zip(hs, spec["r_b"])), D_values=dict(zip(hs, spec["D"])), g_lts=copy.deepcopy(g),
                                  log_time=list(spec["t"]), bore_locations=[tuple(p) for p in spec["xy"]])


def lagrange(xs, ys, x):
    """Lagrange polynomial through (xs, ys) (ys: rows), second barycentric form."""
    for i, v in enumerate(xs):
        if v == x:
            return np.asarray(ys[i], dtype=float)
    w = [1.0 / math.prod(a - b for b in xs if b != a) for a in xs]
    c = [wi / (x - a) for wi, a in zip(w, xs)]
    return sum(ci * np.asarray(y, dtype=float) for ci, y in zip(c, ys)) / sum(c)


def reference(xs, ys, x, kind):
    from scipy.interpolate import make_interp_spline
    order = np.argsort(xs)
    xs = [float(xs[i]) for i in order]
    ys = np.asarray([ys[i] for i in order], dtype=float)
    if kind == "lagrange":
        return lagrange(xs, ys, x)
    k = {"linear": 1, "quadratic": 2, "cubic": 3}[kind]
    return make_interp_spline(xs, ys, k=k)(x)


def effective(kind, n):
    if kind == "default":
        kind = "cubic" if n >= 5 else "quadratic" if n >= 3 else "linear"
    if kind != "lagrange" and REQ[kind] > n:
        kind = {2: "linear", 3: "quadratic"}[n]
    return kind


def height_of(call, hs):
    s = sorted(hs)
    where, a, b = call[1], call[2], call[3]
    if where == "own":
        return s[a % len(s)] + 0.0, True
    if where == "near":
        return s[a % len(s)] + (b - 0.5) * 8e-7, True
    if where == "between" and len(s) > 1:
        i = a % (len(s) - 1)
        return s[i] + (0.02 + 0.96 * b) * (s[i + 1] - s[i]), False
    span = max(s[-1] - s[0], 0.2 * s[0])
    if a % 2:
        return s[-1] + span * (0.001 + b), False
    return max(s[0] - span * (0.001 + b), 0.3 * s[0]) if s[0] * 0.7 > 0.001 * span else s[0] * 0.7, False


def check(case, lab):
    spec = case["spec"]
    hs = [float(h) for h in spec["heights"]]
    g = build(spec)
    n = len(hs)
    lab("%d curves" % n)
    scale0 = max([1.0] + [abs(v) for c in spec["g"] for v in c])
    ranges = set()
    for k, call in enumerate(case["calls"]):
        kind = call[0]
        H, own = height_of(call, hs)
        BH = spec["B"] / H
        what = "call %d: %s interpolation of %d curves at %r m" % (k + 1, kind, n, H)
        outside = H < min(hs) - 1e-6 or H > max(hs) + 1e-6
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            args = [] if call[4] else [kind]
            if call[4]:
                kind = "default"
            try:
                res = g.g_function_interpolation(BH, *args)
            except ValueError as e:
                if n == 1 and (kind != "default" or abs(H - hs[0]) / hs[0] > 0.0009999):
                    lab("one curve is rejected")
                    continue
                raise e
        warned = any("xtrapol" in str(x.message) for x in w)
        curve, rb, D, Heq = res
        expect(n > 1 or (kind == "default" and abs(H - hs[0]) / hs[0] < 0.0010001), "%s is accepted", what)
        expect_close(float(Heq), H, what + ": equivalent height", rel=1e-9, abs_=1.1e-6)
        if n == 1:
            lab("one curve")
            ref, ref_rb, ref_D, amp = np.asarray(spec["g"][0]), spec["r_b"][0], spec["D"][0], 1.0
        else:
            eff = effective(kind, n)
            h = H
            for e in (min(hs), max(hs)):
                if abs(h - e) < 1e-6:
                    h = e
            ref = np.asarray(reference(hs, spec["g"], h, eff), dtype=float)
            ref_rb = float(reference(hs, [[v] for v in spec["r_b"]], h, eff)[0])
            ref_D = float(reference(hs, [[v] for v in spec["D"]], h, eff)[0])
            amp = max(1.0, float(np.max(np.abs(ref))) / scale0)
            if eff == "lagrange":
                # scipy's power form loses digits in proportion to the powers of the heights
                amp *= (max(hs + [h]) / min(b - a for a, b in zip(sorted(hs), sorted(hs)[1:]))) ** (n - 1) * 1e-6 + 1
            ranges.add((eff, outside))
            lab(eff, "outside" if outside else "own" if own else "between")
            expect(warned == outside, "%s: extrapolation warning: %s", what, warned)
        tol = 1e-7 * scale0 * amp
        expect(len(curve) == len(ref), "%s gives %d values at %d times", what, len(curve), len(ref))
        d = np.abs(np.asarray(curve, dtype=float) - ref)
        i = int(np.argmax(d))
        expect(bool(d[i] <= tol), "%s: value at ln(t/ts) = %r is %r, expected %r", what, spec["t"][i], curve[i], float(ref[i]))
        expect_close(float(rb), ref_rb, what + ": borehole radius", rel=1e-7 * amp, abs_=1e-9 * amp)
        expect_close(float(D), ref_D, what + ": burial depth", rel=1e-7 * amp, abs_=1e-8 * amp)
        if own and n > 1:
            j = hs.index(min(hs, key=lambda v: abs(v - H)))
            d = float(np.max(np.abs(np.asarray(curve, dtype=float) - np.asarray(spec["g"][j]))))
            expect(d <= tol + 1e-5 * scale0 * (call[1] == "near"), "%s: the curve computed at %r m is off by %r", what, hs[j], d)
    expect(g.g_lts == {h: list(c) for h, c in zip(spec["heights"], spec["g"])} and g.r_b_values == dict(zip(spec["heights"], spec["r_b"])) and
           g.D_values == dict(zip(spec["heights"], spec["D"])) and g.log_time == spec["t"] and [list(p) for p in g.bore_locations] == spec["xy"], "interpolating changed the g-functions")
    lab.nt(len(ranges) > 1)


def check_database(case, lab):
    import ghedt as dt
    spec = case["spec"]
    order = case["order"]
    n = len(spec["heights"])
    idx = sorted(range(n), key=lambda i: (order[i % len(order)], i))
    doc = {"bore_locations": spec["xy"], "logtime": spec["t"], "g": {}}
    for i in idx:
        h = spec["heights"][i]
        key = "%s_%s_%s" % (spec["B"], h, spec["r_b"][i])
        if case["depths"][i % len(case["depths"])]:
            key += "_%s" % spec["D"][i]
        doc["g"][key] = spec["g"][i]
    doc = json.loads(json.dumps(doc))
    keep = copy.deepcopy(doc)
    d = dt.gfunction.GFunction.configure_database_file_for_usage(doc)
    expect(doc == keep, "reading a database changes the document")
    g = dt.gfunction.GFunction(**d)
    has = [bool(case["depths"][i % len(case["depths"])]) for i in range(n)]
    lab("all depths" if all(has) else "no depths" if not any(has) else "some depths")
    lab.nt(n > 1 and idx != sorted(range(n), key=lambda i: spec["heights"][i]))
    expect(sorted(g.g_lts) == sorted(spec["heights"]), "heights %s are read as %s", sorted(spec["heights"]), sorted(g.g_lts))
    for i, h in enumerate(spec["heights"]):
        expect(g.g_lts[h] == spec["g"][i], "the curve of %r m is read as %s", h, str(g.g_lts[h])[:80])
        expect(g.r_b_values[h] == spec["r_b"][i], "the radius %r of %r m is read as %r", spec["r_b"][i], h, g.r_b_values[h])
        want = spec["D"][i] if has[i] else 2.0
        expect(g.D_values[h] == want, "the depth %r of %r m is read as %r", want, h, g.D_values[h])
    expect(g.B == spec["B"] and g.log_time == spec["t"] and [list(p) for p in g.bore_locations] == spec["xy"], "spacing, times or locations of the database are read differently")
    if n > 1:
        H = spec["heights"][0]
        c, rb, D, _ = g.g_function_interpolation(spec["B"] / H)
        scale = max([1.0] + [abs(v) for v in spec["g"][0]])
        expect(max(abs(a - b) for a, b in zip(c, spec["g"][0])) <= 1e-6 * scale and abs(rb - spec["r_b"][0]) < 1e-9, "the curve of %r m is not reproduced", H)


def check_scale(case, lab):
    g = build(case["spec"])
    xy = [list(p) for p in case["spec"]["xy"]]
    new = g.correct_coordinates(case["B"])
    f = case["B"] / case["spec"]["B"]
    lab.nt(f != 1.0 and len(xy) > 1)
    expect(len(new) == len(xy), "%d locations are rescaled to %d", len(xy), len(new))
    for (x, y), p in zip(xy, new):
        expect(abs(p[0] - x * f) <= 1e-9 * max(1, abs(x * f)) and abs(p[1] - y * f) <= 1e-9 * max(1, abs(y * f)), "location %s becomes %s when the spacing changes from %r to %r m",
               [x, y], list(p), case["spec"]["B"], case["B"])
    expect([list(p) for p in g.bore_locations] == xy, "the original locations changed")


def check_radius(case, lab):
    import ghedt as dt
    v = list(case["g"])
    out = dt.gfunction.GFunction.borehole_radius_correction(v, case["rb"], case["star"])
    expect(v == case["g"] and len(out) == len(v), "correcting the radius changes its input or length")
    for a, b in zip(v, out):
        expect_close(float(b), a - math.log(case["star"] / case["rb"]), "g-function value %r corrected from radius %r to %r" % (a, case["rb"], case["star"]), abs_=1e-12, rel=1e-12)
    back = dt.gfunction.GFunction.borehole_radius_correction(out, case["star"], case["rb"])
    expect(max(abs(a - b) for a, b in zip(v, back)) <= 1e-9 * max([1.0] + [abs(a) for a in v]), "correcting the radius forth and back does not return the curve")
    lab.nt(case["rb"] != case["star"])


def _r(lo, hi, n=3):
    return st.builds(lambda x: round(x, n), st.floats(lo, hi))


@st.composite
def specs(draw, nmin=1, nmax=7):
    n = draw(st.one_of(st.integers(nmin, nmax), st.sampled_from([2, 3, 4, 5])))
    kind = draw(st.integers(0, 2))
    if kind == 0:
        hs = [24.0, 48.0, 96.0, 192.0, 384.0, 50.0, 120.0][:n]
    else:
        hs, h = [], draw(st.one_of(_r(20.0, 80.0, 1 if kind == 1 else 0), _r(20.0, 80.0, 1 if kind == 1 else 0), _r(150.0, 320.0, 1)))
        for _ in range(n):
            hs.append(round(h, 2))
            h += draw(st.sampled_from([20.0, 37.5, 60.0, 12.0, 48.25]))
        hs = draw(st.permutations(hs)) if draw(st.booleans()) else hs
    m = draw(st.sampled_from([2, 3, 5, 27]))
    t = [-8.5 + 11.5 * i / (m - 1) for i in range(m)]
    base = draw(st.sampled_from([2.0, 10.0, 60.0]))
    s = sorted(hs)
    jit = draw(st.lists(_r(-1.0, 1.0), min_size=n, max_size=n))
    g = []
    for h, j in zip(hs, jit):
        k = s.index(h)
        g.append([round(base * (0.1 + i / m) * (1.0 + 0.3 * k + 0.1 * j) - 2.0, 6) for i in range(m)])
    xy = draw(st.lists(st.tuples(st.sampled_from([0.0, 5.0, 10.0, 7.25, -5.0]), st.sampled_from([0.0, 5.0, 12.5, -5.0, 100.0])), min_size=1, max_size=6))
    return {"B": draw(st.sampled_from([5.0, 6.0, 4.45, 7.3, 10.05, 3.048])), "heights": list(hs), "g": g, "t": t, "xy": [list(p) for p in xy],
            "r_b": [draw(st.sampled_from([0.075, 0.075, 0.0762, 0.06, 0.1])) for _ in hs], "D": [draw(st.sampled_from([2.0, 2.0, 4.0, 1.0, 0.5, 0.0])) for _ in hs]}


@st.composite
def cases(draw):
    call = st.tuples(st.sampled_from(["default", "default", "linear", "quadratic", "cubic", "lagrange"]), st.sampled_from(["own", "near", "between", "between", "outside"]),
                     st.integers(0, 6), st.one_of(st.floats(0.0, 1.0), st.sampled_from([0.0, 0.5, 1.0])), st.sampled_from([False, False, True]))
    return {"spec": draw(specs()), "calls": draw(st.lists(call, min_size=1, max_size=6))}


SUBCHECKS = [
    Sub("radius", check_radius, lambda: st.fixed_dictionaries({"g": st.lists(_r(-5, 60), min_size=1, max_size=6), "rb": st.one_of(_r(0.04, 0.2), st.sampled_from([0.075, 0.07505])), "star": st.one_of(_r(0.04, 0.2), st.sampled_from([0.07501, 0.075, 0.0750001]))}), quick=400, shards=1),
    Sub("scale", check_scale, lambda: st.fixed_dictionaries({"spec": specs(nmin=1, nmax=2), "B": st.one_of(_r(2.0, 15.0), st.just(5.0))}), quick=300, shards=2),
    Sub("database", check_database, lambda: st.fixed_dictionaries({"spec": specs(), "order": st.lists(st.integers(0, 9), min_size=1, max_size=7),
                                                                   "depths": st.sampled_from([[1], [0], [1, 0]])}), quick=500, shards=4),
    Sub("interpolate", check, cases, quick=6000),
]
