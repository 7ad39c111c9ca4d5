"""C18 A found design is the smallest of its domain that meets the limits."""
import copy
import os
import shutil
import tempfile

from hypothesis import strategies as st

from props.c16 import consistent, final, model, snapshot
from props.landgen import side
from vf import fake, heat, loads
from vf import refdomains as rd
from vf.core import Discard, Sub
from vf.util import expect, expect_close, near_int, pts

ID = "C18"
RULE = ("designs of the four routines on small land (domains of up to 12 fields, nested domains of up to 8 inner ones) with seasonal, peaky and one-sided loads scaled so that the answer lies around "
        "the middle of the domain, the three heat exchanger types, flow per borehole or system, 12 to 36 months, both methods; every field of the searched domains is simulated again, "
        "independently of the search; designs on land for up to 32 by 32 boreholes on a stand-in simulation in which the required height falls with the number of boreholes and the extent of a field, for the first time, again and after being stored; every subset of the geometric constraints is requested for every routine and for unknown ones; non-trivial = a selection that is neither the first nor the last field, or a request")
ASSUMPTIONS = ["the candidates are those of the domain functions, which C02 to C04 check", "no excess is within 0.0005 K of zero", "where the excess is not monotone along a domain, only sufficiency, membership and "
               "repeatability are required", "drilling totals within 0.1 % of each other are ties"]
EPS = 5e-4


def domain(case):
    """The nested domain of the land (one inner domain for the one-dimensional routines)."""
    import ghedt as dt
    r, L, W = case["routine"], case["length"], case["width"]
    d = dt.domains
    if r == "near-square":
        return [d.square_and_near_square(1, case["n"], case["B"])]
    if r == "rectangle":
        return [d.rectangular(L, W, case["B"], case["B_max_x"], disp=False)]
    if r == "bi-rectangle":
        return d.bi_rectangle_nested(L, W, case["B"], case["B_max_x"], case["B_max_y"], disp=False)
    return d.bi_rectangle_zoned_nested(L, W, case["B"], case["B_max_x"], case["B_max_y"])


def design(case, q):
    import ghedt as dt
    import ghedt.peak_load_analysis_tool as plat
    cls, _, fl, b, pipe, grout, soil = heat.parts(case["bhe"])
    lo, hi = case["limits"]
    sp = plat.media.SimulationParameters(1, case["months"], case["temperatures"][0], case["temperatures"][1], hi, lo)
    if case["routine"] == "near-square":
        gc = dt.media.GeometricConstraints(B=case["B"], length=case["length"])
    elif case["routine"] == "rectangle":
        gc = dt.media.GeometricConstraints(length=case["length"], width=case["width"], B_min=case["B"], B_max_x=case["B_max_x"])
    else:
        gc = dt.media.GeometricConstraints(length=case["length"], width=case["width"], B_min=case["B"], B_max_x=case["B_max_x"], B_max_y=case["B_max_y"])
    parts = (b, pipe, grout, soil, sp)
    kw = {"method": case["method"]} if case["method"] != "hybrid" else {}
    return dt.design.Design(case["V"], b, cls, fl, pipe, grout, soil, sp, gc, q, routine=case["routine"], flow=case["flow"], **kw), parts, gc


class Reference:
    """Independent simulation of fields: a new heat exchanger and new g-functions for each."""

    def __init__(self, case, q):
        self.case, self.q = case, q
        self.cache = {}

    def ghe(self, xy, heights):
        import ghedt as dt
        import ghedt.peak_load_analysis_tool as plat
        c = self.case
        cls, _, fl, b, pipe, grout, soil = heat.parts(dict(c["bhe"], H=heights[-1]))
        n = len(xy)
        V = c["V"] * n if c["flow"] == "borehole" else c["V"]
        B = b.r_b if n == 1 else max(b.r_b, ((xy[1][0] - xy[0][0]) ** 2 + (xy[1][1] - xy[0][1]) ** 2) ** 0.5)
        k = len(heights)
        g = dt.gfunction.compute_live_g_function(B, list(heights), [b.r_b] * k, [b.D] * k, V / n / 1000.0 * fl.rho, cls, dt.utilities.Eskilson_log_times(), [tuple(p) for p in xy], fl, pipe, grout, soil)
        lo, hi = c["limits"]
        sp = plat.media.SimulationParameters(1, c["months"], c["temperatures"][0], c["temperatures"][1], hi, lo)
        return dt.ground_heat_exchangers.GHE(V, B, cls, fl, b, pipe, grout, soil, g, sp, list(self.q))

    def excess_of(self, ghe, H, method):
        ghe.bhe.b.H = H
        t = ghe.simulate(method=method)
        return float(max(t[0] - self.case["temperatures"][0], self.case["temperatures"][1] - t[1]))

    def excess(self, xy, H):
        k = fake.key(xy) + (H,)
        if k not in self.cache:
            self.cache[k] = self.excess_of(self.ghe(xy, [H]), H, self.case["method"])
            if abs(self.cache[k]) < EPS:
                raise Discard()
        return self.cache[k]

    def sized(self, xy, method):
        """Height at which the excess is zero, within the limits."""
        from scipy.optimize import brentq
        k = ("size", method) + fake.key(xy)
        if k not in self.cache:
            lo, hi = self.case["limits"]
            g = self.ghe(xy, [lo, (lo + hi) / 2.0, hi])
            f = lambda H: self.excess_of(g, H, method)   # noqa: E731
            a, b = f(lo), f(hi)
            if b >= 0:
                H = float(hi)
            elif a <= 0:
                H = float(lo)
            else:
                H = brentq(f, lo, hi, xtol=1e-5, rtol=1e-9)
            self.cache[k] = H
        return self.cache[k]

    def choice(self, fields):
        """(index, monotone): the first sufficient field; index None when the domain is rejected."""
        lo, hi = self.case["limits"]
        top = [self.excess(f, hi) for f in fields]
        low = self.excess(fields[0], lo)
        mono = all(x > y for x, y in zip(top, top[1:]))
        if low > 0 > top[0]:
            return 0, mono
        if top[0] > 0 > top[-1]:
            return min(i for i, x in enumerate(top) if x <= 0), mono
        return None, mono


def expected(case, ref, nested, lab):
    """([(inner domain, field)] acceptable, strict).  An empty list is a rejection."""
    if case["routine"] in ("near-square", "rectangle"):
        j, mono = ref.choice(nested[0])
        return ([] if j is None else [(0, j)]), mono
    outer = [nested[0][0]] + [d[-1] for d in nested]
    k, mono = ref.choice(outer)
    if k is None or not mono:
        return [], mono
    i = max(k - 1, 0)
    if case["routine"] == "bi-rectangle":
        j, m = ref.choice(nested[i])
        return ([] if j is None else [(i, j)]), m
    trail = []
    for a in range(i, min(len(nested), i + 7)):
        j, m = ref.choice(nested[a])
        if not m:
            return [], False
        if j is None:
            break
        trail.append((len(nested[a][j]) * ref.sized(nested[a][j], "hybrid"), a, j))
        if len(trail) > 1:
            d = trail[-1][0] / trail[-2][0]
            if abs(d - 1.0) < 1e-3:
                raise Discard()
            if d > 1.0:
                break
    lab("compares %d inner domains" % min(len(trail), 4))
    return [t[1:] for t in trail if t[0] <= min(trail)[0] * 1.001], True


def result(d):
    try:
        r = d.find_design()
        return r, ""
    except ValueError as e:
        return None, str(e)


def check(case, lab):
    import ghedt as dt
    q = loads.expand(case["load"])
    ref = Reference(case, q)
    nested = domain(case)
    expect(nested and all(nested), "%s: there is no field on the land", case)
    if len(nested) > 8 or max(len(d) for d in nested) > 14:
        raise Discard()
    want, strict = expected(case, ref, nested, lab)
    given = list(q)
    dsg, parts, gc = design(case, given)
    before = snapshot(*parts, vars(gc))
    what = "%s design of %s" % (case["routine"], {k: case[k] for k in ("length", "width", "B", "limits", "flow", "V", "months", "temperatures")})
    stored = None
    if case["again"] == "stored":
        tmp = tempfile.mkdtemp(prefix="c18")
        try:
            p = os.path.join(tmp, "in")
            dt.utilities.create_input_file(dsg, p)
            stored = dt.utilities.read_input_file(p + ".obj")
        finally:
            shutil.rmtree(tmp)
    r, err = result(dsg)
    expect(snapshot(*parts, vars(gc)) == before and given == q, "%s: the inputs changed", what)
    lab(case["routine"], case["flow"], case["method"], "monotone" if strict else "arbitrary")
    if strict and not want:
        expect(r is None, "%s: %s boreholes are selected although no candidate or every candidate is sufficient", what, r and len(r.selected_coordinates))
    if strict and want:
        expect(r is not None, "%s is rejected: %s", what, err)
    if case["again"] != "no":
        r2, _ = result(stored if stored is not None else dsg)
        expect((r is None) == (r2 is None), "%s: finding it again (%s) gives another outcome", what, case["again"])
        if r is not None:
            expect(fake.key(r.selected_coordinates) == fake.key(r2.selected_coordinates), "%s: finding it again (%s) gives %d boreholes instead of %d", what, case["again"],
                   len(r2.selected_coordinates), len(r.selected_coordinates))
            expect_close(r2.ghe.bhe.b.H, r.ghe.bhe.b.H, what + ": height when found again", rel=1e-5)
        lab("again: " + case["again"])
    if r is None:
        lab("rejected")
        return
    sel = r.selected_coordinates
    where = [(i, j) for i, d in enumerate(nested) for j, f in enumerate(d) if fake.key(f) == fake.key(sel)]
    expect(where, "%s selects a field of %d boreholes that is not in the domain", what, len(sel))
    if strict:
        expect(set(where) & set(want), "%s selects field %s (inner domain, field), not %s", what, where, want)
        j = where[0][1]
        lab.nt(0 < j < len(nested[where[0][0]]) - 1)
    # on the land
    L, W = (case["length"], case["length"]) if case["routine"] == "near-square" else (case["length"], case["width"])
    for x, y in pts(sel):
        expect(-1e-6 <= x <= L + 1e-6 and -1e-6 <= y <= W + 1e-6, "%s: borehole (%r, %r) is not on the land", what, x, y)
    lo, hi = case["limits"]
    expect(ref.excess(sel, hi) < 0, "%s: the selected field exceeds the limits by %r K at the maximum height", what, ref.excess(sel, hi))
    zoned = case["routine"] == "bi-zoned"
    final(case, r.ghe, sel, hi, what, height=not zoned)
    if not zoned:
        t = r.ghe.simulate(method=case["method"])
        e = float(max(t[0] - case["temperatures"][0], case["temperatures"][1] - t[1]))
        expect_close(e, ref.excess(sel, hi), what + ": excess of the design", rel=1e-4, abs_=1e-4)
        r.ghe.compute_g_functions()
        r.ghe.size(method=case["method"])
    H = ref.sized(sel, "hybrid" if zoned else case["method"])
    expect_close(r.ghe.bhe.b.H, H, what + ": the height of the design", rel=1e-4, abs_=2e-3)
    e = ref.excess_of(ref.ghe(sel, [r.ghe.bhe.b.H]), r.ghe.bhe.b.H, "hybrid" if zoned else case["method"])
    expect(e < 0.1 or r.ghe.bhe.b.H == hi, "%s: %r K over the limits at the height of the design", what, e)
    if r.ghe.bhe.b.H == lo:
        lab("minimum height")


NEEDS = {"near-square": ("B", "length"), "rectangle": ("length", "width", "B_min", "B_max_x"), "bi-rectangle": ("length", "width", "B_min", "B_max_x", "B_max_y"),
         "bi-zoned": ("length", "width", "B_min", "B_max_x", "B_max_y")}
VALUES = {"B": 5.0, "length": 21.0, "width": 13.0, "B_min": 4.0, "B_max_x": 9.0, "B_max_y": 7.5}
LANDS = [VALUES, {"B": 4.5, "length": 20.0, "width": 31.0, "B_min": 3.0, "B_max_x": 10.0, "B_max_y": 4.5}, {"B": 3.0, "length": 30.0, "width": 19.0, "B_min": 3.0, "B_max_x": 4.0, "B_max_y": 9.5},
         {"B": 7, "length": 36, "width": 36, "B_min": 6, "B_max_x": 9, "B_max_y": 12}, {"B": 2.5, "length": 12.4, "width": 25.0, "B_min": 2.5, "B_max_x": 6.1, "B_max_y": 3.2}]


def check_request(case, lab):
    """A request with what its routine needs is accepted, one that lacks something or names no routine is rejected."""
    import ghedt as dt
    import ghedt.peak_load_analysis_tool as plat
    v = LANDS[case.get("land", 0)]
    given = {k: v[k] for k in case["given"]}
    gc = dt.media.GeometricConstraints(**given)
    keep = copy.deepcopy(vars(gc))
    cls, _, fl, b, pipe, grout, soil = heat.parts({})
    sp = plat.media.SimulationParameters(1, 12, 35.0, 5.0, 120.0, 60.0)
    r = case["routine"]
    ok = r in NEEDS and set(NEEDS[r]) <= set(given)
    what = "a request for %r with %s" % (r, sorted(given))
    try:
        d = dt.design.Design(0.3, b, cls, fl, pipe, grout, soil, sp, gc, [0.0] * 8760, routine=r, flow="borehole")
    except (ValueError, AssertionError) as e:
        expect(not ok, "%s is rejected: %s", what, e)
        lab("rejected")
    else:
        expect(ok, "%s is accepted", what)
        lab("accepted " + r)
        if r == "near-square":
            exp = [dt.domains.square_and_near_square(1, int(v["length"] / v["B"] + 1e-9) + 1, v["B"])]
        elif r == "rectangle":
            exp = [dt.domains.rectangular(v["length"], v["width"], v["B_min"], v["B_max_x"], disp=False)]
        elif r == "bi-rectangle":
            exp = dt.domains.bi_rectangle_nested(v["length"], v["width"], v["B_min"], v["B_max_x"], v["B_max_y"], disp=False)
        else:
            exp = dt.domains.bi_rectangle_zoned_nested(v["length"], v["width"], v["B_min"], v["B_max_x"], v["B_max_y"])
        got = [d.coordinates_domain] if r in ("near-square", "rectangle") else d.coordinates_domain_nested
        expect([[pts(f) for f in x] for x in got] == [[pts(f) for f in x] for x in exp], "%s searches another domain", what)
    expect(vars(gc) == keep, "%s changes the constraints: %s -> %s", what, keep, vars(gc))
    lab.nt()


def all_requests(tier):
    names = sorted(VALUES)
    for k in range(1, len(LANDS)):
        for r in NEEDS:
            yield {"routine": r, "given": names, "land": k}
    for r in list(NEEDS) + ["near square", "Rectangle", ""]:
        for m in range(64):
            yield {"routine": r, "given": [n for i, n in enumerate(names) if m >> i & 1]}


def requests():
    return st.fixed_dictionaries({"routine": st.sampled_from(list(NEEDS) + ["zoned", "birectangle"]), "given": st.lists(st.sampled_from(sorted(VALUES)), unique=True), "land": st.integers(0, len(LANDS) - 1)})


# ---- larger land, on the stand-in simulation --------------------------------------------------------------------------
def needs(case, xy):
    """Required height of a field: fewer for more boreholes and for a larger extent."""
    n = len(xy)
    area = (max(p[0] for p in xy) - min(p[0] for p in xy)) * (max(p[1] for p in xy) - min(p[1] for p in xy))
    return case["total"] / n ** case["power"] * (1.0 + case["extent"] / (1.0 + area / 100.0))


def expected_fast(case, nested, lo, hi):
    """As expected(), with the required heights known."""
    def choice(fields):
        r = [needs(case, f) for f in fields]
        if min(min(abs(x - lo), abs(x - hi)) for x in r) < 1e-6 * hi:
            raise Discard()
        return model(r, lo, hi), all(a > b * (1.0 + 1e-9) for a, b in zip(r, r[1:]))

    if case["routine"] in ("near-square", "rectangle"):
        j, mono = choice(nested[0])
        return ([] if j is None else [(0, j)]), mono
    outer = [nested[0][0]] + [d[-1] for d in nested]
    k, mono = choice(outer)
    if k is None or not mono:
        return [], mono
    i = max(k - 1, 0)
    if case["routine"] == "bi-rectangle":
        j, m = choice(nested[i])
        return ([] if j is None else [(i, j)]), m
    trail = []
    for a in range(i, min(len(nested), i + 7)):
        j, m = choice(nested[a])
        if not m:
            return [], False
        if j is None:
            break
        f = nested[a][j]
        trail.append((len(f) * min(max(needs(case, f), lo), hi), a, j))
        if len(trail) > 1:
            if abs(trail[-1][0] / trail[-2][0] - 1.0) < 1e-9:
                raise Discard()
            if trail[-1][0] > trail[-2][0]:
                break
    return [t[1:] for t in trail if t[0] <= min(trail)[0] * (1.0 + 1e-9)], True


def passed(case, w, parts, cls, q, what):
    """Every heat exchanger made is of what the design was given."""
    b, pipe, grout, soil, sp = parts
    for g in w.created:
        expect(g.bhe_object is cls, "%s: heat exchangers of type %s are made", what, g.bhe_object)
        for name, x, y in (("pipe", g.bhe.pipe, pipe), ("grout", g.bhe.grout, grout), ("soil", g.bhe.soil, soil), ("simulation parameters", g.sim_params, sp)):
            expect(str(vars(x)) == str(vars(y)), "%s: the %s used is %s", what, name, vars(x))
        expect([g.bhe.b.r_b, g.bhe.b.D] == [b.r_b, b.D], "%s: a borehole of radius and depth %r, %r is used", what, g.bhe.b.r_b, g.bhe.b.D)
        expect(g.hourly_extraction_ground_loads == q, "%s: other loads are used", what)


def check_land(case, lab):
    import ghedt as dt
    lo, hi = case["limits"]
    q = [float(case["total"])] + [0.0] * 8759
    if any(near_int(case[k] / b) and not rd.exactly_whole(case[k], b) for k, m in (("length", "B_max_x"), ("width", "B_max_y")) for b in (case["B"], case.get(m, case["B"]))):
        raise Discard()     # rounding decides how many boreholes fit
    nested = domain(case)
    if not nested or not all(nested):
        raise Discard()     # which land has fields, C02 to C04 decide
    want, strict = expected_fast(case, nested, lo, hi)
    given = list(q)
    dsg, parts, gc = design(case, given)
    before = snapshot(*parts, vars(gc))
    what = "%s design of %s with fields that need %r / n^%r m" % (case["routine"], {k: case.get(k) for k in ("length", "width", "B", "B_max_x", "B_max_y", "limits", "flow", "V", "method", "bhe")}, case["total"], case["power"])
    objs = [dsg]
    if case["again"] == "stored":
        tmp = tempfile.mkdtemp(prefix="c18")
        try:
            p = os.path.join(tmp, "in")
            dt.utilities.create_input_file(dsg, p)
            objs = [dt.utilities.read_input_file(p + ".obj"), dsg] if case.get("first") else [dsg, dt.utilities.read_input_file(p + ".obj")]
        finally:
            shutil.rmtree(tmp)
    elif case["again"] == "same":
        objs = [dsg, dsg]
    required = {fake.key(f): needs(case, f) for d in nested for f in d}
    cls = heat.parts(case["bhe"])[0]
    out, seen = [], []
    for o in objs:
        w = fake.World(required, case["amplitude"], case["side"])
        try:
            with fake.world(w):
                r, err = result(o)
        except KeyError as e:
            expect(False, "%s: a field that is not in the domain is simulated (%s)", what, str(e)[:200])
        consistent(case, w, what)
        passed(case, w, parts, cls, q, what)
        expect(snapshot(*parts, vars(gc)) == before and given == q, "%s: the inputs changed", what)
        out.append((r, err))
        seen.append([(len(x[0]), x[1], x[2]) for x in w.simulated])
    r, err = out[0]
    lab(case["routine"], case["flow"], case["method"], "monotone" if strict else "arbitrary", "again: " + case["again"])
    for r2, _ in out[1:]:
        expect((r is None) == (r2 is None), "%s: finding it again (%s) gives another outcome", what, case["again"])
        expect(seen[0] == seen[1], "%s: finding it again (%s) simulates %s instead of %s", what, case["again"], seen[1][:6], seen[0][:6])
        if r is not None:
            expect(fake.key(r.selected_coordinates) == fake.key(r2.selected_coordinates) and r.ghe.bhe.b.H == r2.ghe.bhe.b.H, "%s: finding it again (%s) gives %d boreholes of %r m instead of %d of %r m", what,
                   case["again"], len(r2.selected_coordinates), r2.ghe.bhe.b.H, len(r.selected_coordinates), r.ghe.bhe.b.H)
    if strict:
        expect((r is not None) == bool(want), "%s: %s", what, "is rejected: " + err if r is None else "%d boreholes are selected although no or every field is sufficient" % len(r.selected_coordinates))
    if r is None:
        lab("rejected")
        return
    sel = r.selected_coordinates
    where = [(i, j) for i, d in enumerate(nested) for j, f in enumerate(d) if fake.key(f) == fake.key(sel)]
    expect(where, "%s selects a field of %d boreholes that is not in the domain", what, len(sel))
    expect(required[fake.key(sel)] <= hi, "%s selects a field that needs %r m", what, required[fake.key(sel)])
    if strict:
        expect(set(where) & set(want), "%s selects field %s (inner domain, field), not %s", what, where, want)
        lab.nt(0 < where[0][1] < len(nested[where[0][0]]) - 1)
    zoned = case["routine"] == "bi-zoned"
    final(case, r.ghe, sel, hi, what, height=not zoned)
    if zoned:
        expect_close(r.ghe.bhe.b.H, min(max(required[fake.key(sel)], lo), hi), what + ": height of the design", rel=1e-9)


@st.composite
def lands(draw, again=("no", "same", "stored")):
    r = draw(st.sampled_from(["near-square", "rectangle", "bi-rectangle", "bi-zoned"]))
    c = {"routine": r, "again": draw(st.sampled_from(list(again))), "first": draw(st.booleans()), "method": draw(st.sampled_from(["hybrid", "hybrid", "hourly"])) if r != "bi-zoned" else "hybrid"}
    B = c["B"] = draw(st.sampled_from([5.0, 4.0, 6.1, 3.0, 4.5, 7.25]))
    most = {"near-square": 32, "rectangle": 14, "bi-rectangle": 10, "bi-zoned": 8}[r]
    a, b = draw(st.integers(2, most)), draw(st.integers(2, most))
    if r == "near-square":
        extra = draw(st.sampled_from([0.0, 0.3, 0.5, 0.77]))
        c["n"] = a
        c["length"] = c["width"] = round((a - 1) * B + extra * B, 6)
        n = a * a
    else:
        for k, m in (("length", "B_max_x"), ("width", "B_max_y")):
            c[k], c[m] = draw(side(B, nmax=most, nmin=3 if r == "bi-zoned" else 2))
            if r == "bi-zoned":
                c[m] = min(c[m], c[k] / 1.01)
            c[m] = max(c[m], c[k] / int(c[k] / B + 1e-9), B) * draw(st.sampled_from([1.0, 1.0 + 1e-6]) if r != "bi-zoned" else st.just(1.0 + 1e-6))
        a, b = int(c["length"] / B) + 1, int(c["width"] / B) + 1
        n = a * b
    c["limits"] = [lo, hi] = draw(st.sampled_from([[60.0, 135.0], [60, 135], [20.0, 50.0], [30.5, 200.0]]))
    c["power"] = draw(st.sampled_from([1.0, 1.0, 0.7, 1.3]))
    c["extent"] = draw(st.sampled_from([0.0, 0.0, 0.3, 2.0]))
    share = draw(st.floats(0.02, 1.1))
    c["total"] = hi * (share * n + 0.37) ** c["power"]
    c["amplitude"] = draw(st.sampled_from([4.0, 50.0, 0.01]))
    c["side"] = draw(st.sampled_from(["max", "min"]))
    c["flow"] = draw(st.sampled_from(["borehole", "system"]))
    c["V"] = draw(st.sampled_from([0.2, 0.35, 31.2, 0.31725, 17.4368]))
    c["months"] = draw(st.sampled_from([12, 240]))
    c["temperatures"] = draw(st.sampled_from([[35.0, 5.0], [30.0, 8.0], [40, 2]]))
    c["bhe"] = {"type": draw(st.sampled_from(["single", "single", "multiple", "coaxial"])), "H": draw(st.sampled_from([96.0, 140.0, 60])), "ugt": draw(st.sampled_from([18.3, 15.0])),
                "k_g": draw(st.sampled_from([1.0, 1.6])), "fluid": draw(st.sampled_from([["Water", 0.0], ["MPG", 30.0]]))}
    if c["bhe"]["type"] == "multiple":
        c["bhe"].update(n=2, r_b=0.075, s=0.03, r_in=0.0108, r_out=0.013335)
    elif c["bhe"]["type"] == "coaxial":
        c["bhe"].update(r_b=0.07, r_in=[0.0221, 0.025], r_out=[0.0487, 0.055], k_p=[0.4, 0.4])
    return c


@st.composite
def cases(draw, routines=("near-square", "rectangle", "bi-rectangle", "bi-zoned")):
    r = draw(st.sampled_from(routines))
    c = {"routine": r, "again": draw(st.sampled_from(["no", "stored", "same"])), "method": "hybrid"}
    B = c["B"] = draw(st.sampled_from([5.0, 4.0, 6.1]))
    extra = draw(st.sampled_from([0.0, 0.0, 0.4])) * B
    if r == "near-square":
        c["n"] = draw(st.integers(2, 4))
        c["length"] = c["width"] = (c["n"] - 1) * B + extra
        total = c["n"] ** 2
    elif r == "rectangle":
        a, b = draw(st.integers(2, 5)), draw(st.integers(1, 3))
        c["length"], c["width"] = (a - 1) * B + extra, max((b - 1) * B, 0.5 * B)
        c["B_max_x"] = draw(st.sampled_from([B * 2.0, B * 1.5, c["length"]]))
        total = a * b
    elif r == "bi-rectangle":
        a, b = draw(st.integers(2, 5)), draw(st.integers(2, 4))
        c["length"], c["width"] = (a - 1) * B + extra, (b - 1) * B
        c["B_max_x"], c["B_max_y"] = B * draw(st.sampled_from([2.0, 1.5])), B * draw(st.sampled_from([2.0, 3.0]))
        total = a * b
    else:
        a, b = draw(st.sampled_from([(3, 3), (4, 3), (5, 3), (4, 4)]))
        c["length"], c["width"] = (a - 1) * B + extra, (b - 1) * B
        c["B_max_x"], c["B_max_y"] = B * draw(st.sampled_from([1.0, 1.5] if extra == 0.0 else [1.5])), B * draw(st.sampled_from([1.0, 1.5]))
        total = a * b
    c["length"], c["width"] = round(c["length"], 6), round(c["width"], 6)      # as users write them
    if r != "near-square":
        if draw(st.booleans()) and r != "rectangle":
            c["length"], c["width"] = c["width"], c["length"]
            c["B_max_x"], c["B_max_y"] = c["B_max_y"], c["B_max_x"]
    c["limits"] = draw(st.sampled_from([[60.0, 120.0], [60, 100], [30.0, 80.0], [80.0, 135.0]]))
    c["months"] = draw(st.sampled_from([12, 12, 24, 36]))
    c["temperatures"] = draw(st.sampled_from([[35.0, 5.0], [30.0, 8.0], [40.0, 2.0]]))
    c["flow"] = draw(st.sampled_from(["borehole", "borehole", "system"]))
    c["bhe"] = {"type": draw(st.sampled_from(["single", "single", "single", "multiple", "coaxial"])), "H": draw(st.sampled_from([96.0, 140.0])), "ugt": draw(st.sampled_from([18.3, 15.0]))}
    if c["bhe"]["type"] == "multiple":
        c["bhe"].update(n=2, r_b=0.075, s=0.03, r_in=0.0108, r_out=0.013335)
    elif c["bhe"]["type"] == "coaxial":
        c["bhe"].update(r_b=0.07, r_in=[0.0221, 0.025], r_out=[0.0487, 0.055], k_p=[0.4, 0.4])
    share = draw(st.floats(0.1, 0.95)) * total
    c["V"] = 0.3 if c["flow"] == "borehole" else round(0.35 * max(share, 2.0), 4)
    per = draw(st.sampled_from([25.0, 40.0])) * c["limits"][1]          # W of peak load per borehole
    peak = round(per * share, 1)
    sign = draw(st.sampled_from([1.0, -1.0]))
    c["load"] = {"base": draw(st.sampled_from([0.0, 0.1, -0.2])) * peak, "annual": [sign * 0.7 * peak, draw(st.sampled_from([0.0, 0.5, 0.13]))], "daily": [0.3 * peak, 0.4]}
    k = draw(st.integers(0, 3))
    if k == 0:
        c["load"]["clip"] = "extraction" if sign > 0 else "rejection"
    elif k == 1:
        c["load"]["events"] = [[loads.FIRST[8] + 12 + 24 * 9, 6, -1.3 * peak], [loads.FIRST[1] + 12 + 24 * 9, 10, 1.2 * peak]]
    if draw(st.integers(0, 9)) == 0 and r in ("near-square", "rectangle"):
        c["method"], c["months"] = "hourly", 2
    return c


SUBCHECKS = [
    Sub("request", check_request, requests, quick=40, cases=all_requests, shards=1),
    Sub("land", check_land, lands, quick=5000, thorough=150000),
    Sub("one", check, lambda: cases(("near-square", "rectangle")), quick=16, thorough=500, cpu_s=400, shrink_s=60),
    Sub("two", check, lambda: cases(("bi-rectangle",)), quick=8, thorough=250, cpu_s=400, shrink_s=60),
    Sub("zoned", check, lambda: cases(("bi-zoned",)), quick=8, thorough=150, cpu_s=600, shrink_s=60),
]
