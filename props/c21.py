"""C21 Land and pipe geometry helpers are exact and mutually consistent."""
import calendar
import contextlib
import io
import itertools
import math
import types
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub
from vf.util import close, expect, expect_close, expect_raises, match_points

ID = "C21"
RULE = ("sides given as count times spacing, as sums, and as arbitrary lengths; polygons with 3 to 14 vertices (star shaped, rectilinear, with "
        "collinear vertices), rotated, reversed, translated and scaled; 1 to 6 pipes; random monotone and non-monotone functions for the root "
        "finder; every month of 60 years; non-trivial = the length is a whole number of spacings, the polygon is not convex, several pipes, or a "
        "root has to be searched for")
ASSUMPTIONS = ["lengths whose quotient by the spacing is within 1e-6 of an integer without being constructed as a multiple are not used",
               "areas are compared to the exact rational shoelace sum with a rounding allowance proportional to the products added",
               "pipes do not overlap whenever the requested spacing leaves room for them (always for one U-tube)",
               "the mean percentage error is positive when the prediction is higher, as the code computes it (its docstring has the other sign)"]


# ------------------------------------------------------------------ counts, lengths and spacings
def check_land(case, lab):
    import ghedt as dt
    u = dt.utilities
    B, n, part = case["B"], case["n"], case["part"]
    how = case["how"]
    if how == "multiple":
        L = B * n
        lab("a whole number of spacings")
    elif how == "sum":
        L = 0.0
        for _ in range(n):
            L += B
        lab("a whole number of spacings, summed")
    elif how == "decimal":
        # typed by a user: both rounded to a decimal fraction, a whole number of spacings on paper
        B = round(B, 2)
        L = round(B * n, 2)
        lab("a whole number of spacings, typed")
    else:
        L = B * (n + part)
        lab("not a whole number of spacings")
    whole = how != "between"
    lo, hi = (n + 1, n + 1) if whole else (n + 1, n + 2)
    got = {}
    for name, func, want in (("floor", np.floor, lo), ("ceil", np.ceil, hi), ("math.floor", math.floor, lo), ("math.ceil", math.ceil, hi)):
        N = u.number_of_boreholes(L, B, func=func)
        expect(type(N) is int, "number_of_boreholes(%r, %r, %s) is a %s", L, B, name, type(N).__name__)
        expect(N == want, "number_of_boreholes(%r, %r, %s) is %d, expected %d", L, B, name, N, want)
        got[name] = N
    expect(u.number_of_boreholes(L, B) == hi, "number_of_boreholes(%r, %r) does not round up by default", L, B)
    for N in sorted(set(got.values())):
        if N < 2:
            continue
        b = u.spacing_along_length(L, N)
        expect_close(b * (N - 1), L, "%d boreholes at spacing_along_length(%r, %d)" % (N, L, N), rel=1e-12, abs_=0)
        side = u.length_of_side(N, b)
        expect_close(side, L, "length_of_side(%d, spacing_along_length(%r, %d))" % (N, L, N), rel=1e-12, abs_=0)
        for func in (np.floor, np.ceil):
            expect(u.number_of_boreholes(side, b, func=func) == N, "a side of %d boreholes with spacing %r has %d boreholes", N, b,
                   u.number_of_boreholes(side, b, func=func))
        if N == got["floor"]:
            expect(b >= B * (1 - 1e-9), "rounding down leaves a spacing of %r below %r", b, B)
        if N == got["ceil"]:
            expect(b <= B * (1 + 1e-9), "rounding up leaves a spacing of %r above %r", b, B)
    expect(u.length_of_side(1, B) == 0, "one borehole has a side of %r", u.length_of_side(1, B))
    lab.nt(whole)


def land_strategy():
    return st.fixed_dictionaries({
        "B": st.one_of(st.floats(0.5, 20), st.integers(5, 200).map(lambda x: x / 10), st.integers(50, 2000).map(lambda x: x / 100)),
        "n": st.integers(1, 400),
        "part": st.one_of(st.floats(1e-5, 1 - 1e-5), st.sampled_from([0.5, 0.25, 1e-4, 0.9999])),
        "how": st.sampled_from(["multiple", "sum", "decimal", "between", "between"])})


# ------------------------------------------------------------------ polygons and rectangles
def exact_area(p):
    s = Fraction(0)
    for i in range(len(p)):
        a, b = p[i], p[(i + 1) % len(p)]
        s += Fraction(a[0]) * Fraction(b[1]) - Fraction(b[0]) * Fraction(a[1])
    return abs(s) / 2


def check_area(case, lab):
    import ghedt as dt
    u = dt.utilities
    kind = case["kind"]
    ox, oy = case["origin"]
    sx, sy = case["size"]
    if kind == "rectangle":
        # the outline is exact: vertices, orientation, closed area
        r = u.make_rectangle_perimeter(sx, sy, origin=(ox, oy))
        want = [(ox, oy), (ox + sx, oy), (ox + sx, oy + sy), (ox, oy + sy)]
        expect([tuple(p) for p in r] == want, "make_rectangle_perimeter(%r, %r, %r) is %r", sx, sy, (ox, oy), r)
        r0 = u.make_rectangle_perimeter(sx, sy)
        expect([tuple(p) for p in r0] == [(0, 0), (sx, 0), (sx, sy), (0, sy)], "make_rectangle_perimeter(%r, %r) is %r", sx, sy, r0)
        expect_close(u.polygonal_area(r0), sx * sy, "area of a %r by %r rectangle" % (sx, sy), rel=1e-12, abs_=0)
        poly = r
        # determine_largest_rectangle of a property in the first quadrant: from the origin to the largest x and y
    elif kind == "staircase":
        # columns of increasing height: rectilinear, area is the sum of the columns
        poly, x, area = [(ox, oy)], ox, 0.0
        h = oy
        hs = [oy + abs(v[0]) * sy + 1e-3 * sy for v in case["r"]]
        top = []
        for k, hh in enumerate(hs):
            w = sx / len(hs)
            top.append((ox + k * w, hh))
            top.append((ox + (k + 1) * w, hh))
        poly = [(ox, oy), (ox + sx, oy)] + top[::-1]
        lab("rectilinear")
        lab.nt()
    else:
        m = len(case["r"])
        poly = [(ox + sx * v[0] * math.cos(2 * math.pi * k / m), oy + sy * v[0] * math.sin(2 * math.pi * k / m)) for k, v in enumerate(case["r"])]
        if case["collinear"]:
            a, b = poly[-1], poly[0]
            poly.append(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2))
            lab("vertex on an edge")
        lab("star shaped")
        lab.nt(m > 3)
    want = exact_area(poly)
    big = max(1e-300, max(abs(c) for p in poly for c in p)) ** 2 * len(poly)

    def same(got, what):
        expect(isinstance(got, (int, float, np.floating)), "%s is a %s", what, type(got).__name__)
        expect(abs(Fraction(float(got)) - want) <= Fraction(big) * Fraction(1, 10 ** 14), "%s is %r, exactly it is %r (%r)", what, float(got), float(want), poly)
    keep = [tuple(p) for p in poly]
    same(u.polygonal_area(poly), "polygonal_area")
    expect([tuple(p) for p in poly] == keep, "polygonal_area changes its argument")
    k = case["turn"] % len(poly)
    same(u.polygonal_area(poly[k:] + poly[:k]), "polygonal_area started at vertex %d" % k)
    same(u.polygonal_area(poly[::-1]), "polygonal_area in reverse order")
    same(u.polygonal_area([list(p) for p in poly]), "polygonal_area of lists")
    same(u.polygonal_area(poly + [poly[0]]), "polygonal_area of the closed polygon")
    if kind == "staircase":
        parts = sum(Fraction(h - oy) * Fraction(sx) / len(hs) for h in hs)
        expect(abs(parts - want) <= Fraction(big) * Fraction(1, 10 ** 13), "harness: area of the columns %r, shoelace %r", float(parts), float(want))
    # the rectangle around a property in the first quadrant
    if all(p[0] >= 0 and p[1] >= 0 for p in poly):
        rect = dt.feature_recognition.determine_largest_rectangle(poly)
        X, Y = max(p[0] for p in poly), max(p[1] for p in poly)
        expect([tuple(p) for p in rect] == [(0, 0), (X, 0), (X, Y), (0, Y), (0, 0)], "the rectangle around %r is %r", poly, rect)
        lab("first quadrant")


def area_strategy():
    f = st.one_of(st.floats(-300, 300), st.integers(-100, 100).map(float), st.just(0.0))
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["rectangle", "staircase", "star", "star"]),
        "origin": st.tuples(f, f).map(list),
        "size": st.tuples(st.floats(0.5, 300), st.one_of(st.floats(0.5, 300), st.integers(1, 200).map(float))).map(list),
        "r": st.lists(st.tuples(st.floats(0.05, 1.0)).map(list), min_size=3, max_size=14),
        "collinear": st.booleans(), "turn": st.integers(0, 13)})


# ------------------------------------------------------------------ spacing, sign, bracket, error, order
def check_small(case, lab):
    import ghedt as dt
    u = dt.utilities
    r_b = case["r_b"]
    xy = [tuple(p) for p in case["xy"]]
    import pygfunction as gt
    bore = gt.boreholes.Borehole(100.0, 2.0, r_b, 0.0, 0.0)
    if not xy:
        expect_raises(ValueError, lambda: u.borehole_spacing(bore, []), "the spacing of no boreholes")
        lab("no boreholes")
    else:
        want = r_b if len(xy) == 1 else max(r_b, math.hypot(xy[1][0] - xy[0][0], xy[1][1] - xy[0][1]))
        expect_close(float(u.borehole_spacing(bore, xy)), want, "borehole_spacing(r_b=%r, %r)" % (r_b, xy[:3]), rel=1e-12, abs_=0)
        lab("one borehole" if len(xy) == 1 else "several boreholes")
        # its own answer for boreholes further on does not matter
        expect_close(float(u.borehole_spacing(bore, xy[:2])), want, "borehole_spacing of the first two of %r" % (xy[:3],), rel=1e-12, abs_=0)
        if len(xy) > 1:
            expect_close(float(u.borehole_spacing(bore, [xy[1], xy[0]])), want, "borehole_spacing in the other order", rel=1e-12, abs_=0)
            lab("closer than the radius" if want == r_b else "further than the radius")
    a, b = case["a"], case["b"]
    for v in (a, b):
        s = u.sign(v)
        expect(s in ((1, -1) if v == 0 else (1,) if v > 0 else (-1,)) and type(s) is int, "sign(%r) is %r", v, s)
    if a != 0 and b != 0:
        want = (a > 0) != (b > 0)
        got = u.check_bracket(u.sign(a), u.sign(b))
        expect(got is want, "check_bracket of the signs of %r and %r is %r", a, b, got)
        expect(u.check_bracket(u.sign(b), u.sign(a)) is want, "check_bracket depends on the order of %r and %r", a, b)
        expect(u.check_bracket(u.sign(a), u.sign(b), disp=True) is want, "check_bracket with disp")
        lab("bracketed" if want else "not bracketed")
        lab.nt(want)
    # mean percentage error
    act = [x if abs(x) > 1e-3 else 1.0 for x in case["values"]]
    for shift in (0.0, case["shift"]):
        pred = [x * (1 + shift) for x in act]
        if act:
            expect_close(float(u.compute_mpe(act, pred)), 100 * shift, "mean percentage error of a uniform %r" % shift, rel=1e-9, abs_=1e-9)
    if len(act) >= 2:
        pred = act[1:] + act[:1]
        want = 100.0 / len(act) * math.fsum((p - x) / x for x, p in zip(act, pred))
        scale = 100.0 / len(act) * math.fsum(abs((p - x) / x) for x, p in zip(act, pred))
        expect_close(float(u.compute_mpe(act, pred)), want, "mean percentage error", rel=1e-9, abs_=1e-9 * scale + 1e-12)
        expect_close(float(u.compute_mpe(np.array(act), np.array(pred))), want, "mean percentage error of arrays", rel=1e-9, abs_=1e-9 * scale + 1e-12)
        expect_raises(AssertionError, lambda: u.compute_mpe(act, pred[:-1]), "the error of lists with different lengths")
        expect_raises(AssertionError, lambda: u.compute_mpe(act[:-1], pred), "the error of lists with different lengths")
    # differences of a sequence of excess values and whether it never rises
    d, ok = dt.domains.verify_excess(list(case["values"]))
    v = case["values"]
    expect(list(d) == [v[i] - v[i - 1] for i in range(1, len(v))] and bool(ok) == all(v[i] <= v[i - 1] for i in range(1, len(v))),
           "verify_excess(%r) is %r", v, (d, ok))
    # Eskilson's times
    t = u.Eskilson_log_times()
    expect(len(t) == 27 and all(x < y for x, y in zip(t, t[1:])) and t[0] == -8.5 and t[-1] == 3.003, "Eskilson's times are %r", t)
    t.append(99.0)
    t[0] = 0.0
    t2 = u.Eskilson_log_times()
    expect(len(t2) == 27 and t2[0] == -8.5, "Eskilson's times are shared between callers")


def small_strategy():
    num = st.one_of(st.floats(-1e6, 1e6, allow_subnormal=False), st.integers(-5, 5).map(float), st.floats(-1e-9, 1e-9, allow_subnormal=False))
    p = st.tuples(st.one_of(st.floats(-200, 200), st.integers(-20, 20).map(float), st.floats(-0.2, 0.2)), st.one_of(st.floats(-200, 200), st.integers(-20, 20).map(float),
                                                                                                 st.floats(-0.2, 0.2))).map(list)
    return st.fixed_dictionaries({"r_b": st.floats(0.03, 0.3), "xy": st.lists(p, max_size=6), "a": num, "b": num,
                                  "values": st.lists(st.one_of(st.floats(-50, 50), st.integers(-9, 9).map(float)), max_size=12),
                                  "shift": st.floats(-0.9, 3)})


# ------------------------------------------------------------------ pipes
def check_pipes(case, lab):
    import ghedt.peak_load_analysis_tool as plat
    n, s, r_out = case["n"], case["s"], case["r_out"]
    pos = plat.media.Pipe.place_pipes(s, r_out, n)
    expect(isinstance(pos, list) and len(pos) == 2 * n, "%d U-tubes have %r", n, pos)
    D = s / 2 + r_out
    for x, y in pos:
        expect_close(math.hypot(x, y), D, "distance of a pipe from the centre (s=%r, r_out=%r)" % (s, r_out), rel=1e-12, abs_=0)
    ang = sorted(math.atan2(y, x) % (2 * math.pi) for x, y in pos)
    step = math.pi / n
    gaps = [b - a for a, b in zip(ang, ang[1:] + [ang[0] + 2 * math.pi])]
    expect(all(abs(g - step) <= 1e-9 for g in gaps), "the pipes are at angles %r, not evenly spaced", ang)
    expect(any(close(x, -D, 1e-12, 1e-12) and abs(y) <= 1e-12 for x, y in pos), "no pipe lies on the x-axis: %r", pos)
    # symmetric about the centre: opposite pipes are the shank spacing apart
    for x, y in pos:
        q = min(pos, key=lambda o: math.hypot(o[0] + x, o[1] + y))
        expect(math.hypot(q[0] + x, q[1] + y) <= 1e-9 * D, "no pipe opposite (%r, %r): %r", x, y, pos)
        expect_close(math.hypot(q[0] - x, q[1] - y) - 2 * r_out, s, "spacing between opposite pipes", rel=1e-9, abs_=1e-9 * D)
    # no overlap when there is room
    chord = 2 * D * math.sin(math.pi / (2 * n))
    dist = min(math.hypot(a[0] - b[0], a[1] - b[1]) for a, b in itertools.combinations(pos, 2))
    expect_close(dist, chord, "smallest distance between two pipes", rel=1e-9, abs_=0)
    if n == 1:
        expect(dist >= 2 * r_out * (1 - 1e-12), "the legs of a U-tube overlap: %r", pos)
    k = case["k"]
    p = plat.media.Pipe(pos, r_out * 0.8, r_out, s, 1e-6, k, 1.5e6)
    expect(p.n_pipes == n and p.s == s and p.r_out == r_out and p.k == k and p.rhoCp == 1.5e6 and p.eps == 1e-6 and p.r_in == r_out * 0.8,
           "the pipe reports %r U-tubes instead of %d", p.n_pipes, n)
    c = plat.media.Pipe((0, 0), [0.02, 0.05], [0.025, 0.055], 0, 1e-6, [0.4, 0.4], 1.5e6)
    expect(c.n_pipes == 1, "a coaxial pipe has %r pipes", c.n_pipes)
    expect([match_points(pos, plat.media.Pipe.place_pipes(s, r_out, n), 1e-15)] == [None], "placing pipes twice differs")
    lab("one U-tube" if n == 1 else "%d U-tubes" % n)
    lab.nt(n > 1)


def pipes_strategy():
    return st.fixed_dictionaries({"n": st.integers(1, 6), "s": st.floats(0.001, 0.3), "r_out": st.floats(0.005, 0.06), "k": st.floats(0.1, 5)})


# ------------------------------------------------------------------ bracketed root
def check_root(case, lab):
    from ghedt.peak_load_analysis_tool import equivalance
    lo, hi = sorted(case["bounds"])
    if hi - lo < 1e-3 * max(1.0, abs(hi)):
        hi = lo + 1e-3 * max(1.0, abs(lo)) + 0.5
    where, a, shape = case["where"], case["slope"], case["shape"]
    default = case["default"]
    x0 = case["x0"]
    if default:
        lo, hi = x0 / 100.0, x0 * 10.0
    root = hi if where == 1 else lo + where * (hi - lo)
    span = hi - lo
    seen = []

    def f(x):
        seen.append(x)
        t = (x - root) / span
        v = {"linear": t, "cubic": t ** 3 + 0.2 * t, "exp": math.expm1(3 * t), "atan": math.atan(8 * t)}[shape]
        return a * v
    kw = {} if default else {"lower": lo, "upper": hi}
    at_bound = f(lo) == 0 or f(hi) == 0
    seen.clear()
    got = equivalance.solve_root(x0, f, **kw)
    if at_bound:
        lab("root at a bound")
        expect(got == root, "solve_root finds %r, the root is the bound %r (of %r, %r)", got, root, lo, hi)
        return
    inside = 0 < where < 1
    if inside:
        tol = 1e-6 + 1e-6 * abs(root) * 2
        expect(abs(got - root) <= tol * 4, "solve_root finds %r, the root is %r (bounds %r, %r)", got, root, lo, hi)
        lab("bracketed, rising" if a > 0 else "bracketed, falling")
        lab.nt()
    else:
        # the bound that is nearer to a root of an increasing function
        want = hi if f(lo) < 0 else lo
        expect(got == want, "solve_root gives %r for a function of one sign (%s), expected %r", got, "negative" if want == hi else "positive", want)
        lab("all negative" if want == hi else "all positive")
        lab.nt()
    expect(all(lo <= x <= hi for x in seen), "solve_root evaluates the function at %r outside [%r, %r]", [x for x in seen if not lo <= x <= hi][:1], lo, hi)


def root_strategy():
    return st.fixed_dictionaries({
        "bounds": st.tuples(st.floats(-50, 400), st.floats(-50, 400)).map(list), "x0": st.floats(0.01, 400),
        "default": st.booleans(), "where": st.one_of(st.floats(0.001, 0.999), st.floats(-2, -0.01), st.floats(1.01, 3), st.sampled_from([0.0, 1.0])),
        "slope": st.sampled_from([1.0, -1.0, 10.0, -0.3]), "shape": st.sampled_from(["linear", "cubic", "exp", "atan"])})


# ------------------------------------------------------------------ calendar
def calendar_cases(tier):
    for m in range(1, 1201 if tier == "thorough" else 721):
        yield {"month": m}


def check_calendar(case, lab):
    from ghedt.peak_load_analysis_tool import ground_loads as gl
    m = case["month"]
    y, k = divmod(m - 1, 12)
    names = list(calendar.month_name)[1:]
    days = [calendar.monthrange(2019, i)[1] for i in range(1, 13)]
    expect(gl.monthdays(m) == days[k], "month %d has %r days, expected %d", m, gl.monthdays(m), days[k])
    first = 8760 * y + 24 * sum(days[:k]) + 1
    last = first + 24 * days[k] - 1
    expect(gl.firstmonthhour(m) == first, "the first hour of month %d is %r, expected %d", m, gl.firstmonthhour(m), first)
    expect(gl.lastmonthhour(m) == last, "the last hour of month %d is %r, expected %d", m, gl.lastmonthhour(m), last)
    if m <= 12:
        expect(gl.number_to_month(m) == names[k], "month %d is called %r", m, gl.number_to_month(m))
        expect(gl.monthindex(names[k]) == m, "%s is month %r", names[k], gl.monthindex(names[k]))
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                name = gl.number_to_month(m)
            except (ValueError, KeyError):
                name = None
        expect(name not in names, "there is no month %d, but it is called %r", m, name)
    lab("first year" if m <= 12 else "later years")
    lab.nt(m > 12)


# ------------------------------------------------------------------ required land constraints
def check_constraints(case, lab):
    import ghedt as dt
    v = {k: x for k, x in case["given"].items()}
    g = dt.media.GeometricConstraints(**v)
    for k in ("length", "width", "B", "B_min", "B_max_x", "B_max_y", "outer_constraints", "no_go"):
        expect(getattr(g, k) == v.get(k), "constraint %s is %r, given %r", k, getattr(g, k), v.get(k))
    need = {"near-square": ("B", "length"), "rectangle": ("width", "length", "B_min", "B_max_x"),
            "bi-rectangle": ("width", "length", "B_min", "B_max_x", "B_max_y"), "bi-zoned": ("width", "length", "B_min", "B_max_x", "B_max_y")}
    for method, fields in need.items():
        if all(k in v for k in fields):
            g.check_inputs(method)
            lab("%s: complete" % method)
        else:
            expect_raises(AssertionError, lambda: g.check_inputs(method), "%s without %s" % (method, [k for k in fields if k not in v]))
            lab("%s: incomplete" % method)
            lab.nt()


def constraints_strategy():
    f = st.floats(1, 200)
    return st.fixed_dictionaries({"given": st.fixed_dictionaries({}, optional={k: f for k in ("length", "width", "B", "B_min", "B_max_x", "B_max_y")})})


SUBCHECKS = [
    Sub("calendar", check_calendar, cases=calendar_cases, quick=0, thorough=0, shards=1),
    Sub("land", check_land, land_strategy, quick=4000, thorough=200000),
    Sub("area", check_area, area_strategy, quick=4000, thorough=150000),
    Sub("small", check_small, small_strategy, quick=3000, thorough=100000),
    Sub("pipes", check_pipes, pipes_strategy, quick=3000, thorough=100000),
    Sub("root", check_root, root_strategy, quick=3000, thorough=100000),
    Sub("constraints", check_constraints, constraints_strategy, quick=800, thorough=10000),
]
