"""C16 The one-dimensional search selects the smallest field that meets the limits."""
import copy

from hypothesis import strategies as st

from vf import fake, field, heat, loads
from vf.core import Discard, Sub, Violation
from vf.util import expect, expect_close

ID = "C16"
RULE = ("domains of 1 to 512 growing fields (random layouts and sizes, also of the same number of boreholes and the same outermost ones) whose required height decreases along the domain or, for the weaker statements, is arbitrary; heights limits, flow per "
        "borehole or system, hybrid or hourly, either temperature limit; the search of the real code on a stand-in simulation, and on small domains with the real one; "
        "non-trivial = a selection that is neither the first nor the last field")
ASSUMPTIONS = ["in the stand-in, the excess of a field at height H is a (required height / H - 1)", "an excess of exactly zero meets the limits; a first field that needs exactly the minimum height is discarded", "at most 2^14 fields (the default number of iterations)",
               "for an excess that is not monotone along the domain, only membership and sufficiency are required"]


def make_fields(spec, inside=None):
    """Growing fields: spec = [B, width, [numbers], offset].  With "inside", the first two and the last boreholes of fields of four or more have the
    same places in fields of the same number, and one in between is moved by inside(field)."""
    B, w, ns, off = spec
    out = []
    for k, n in enumerate(ns):
        d = None if inside is None or n < 4 else inside(k)
        out.append([(float(i % w) * B, float(i // w) * B + (off if d is None else d if i == 2 else 0.0)) for i in range(n)])
    return out


def model(required, lo, hi):
    """The selected index, or None when the domain is rejected; required decreases."""
    if lo < required[0] <= hi:
        return 0
    if required[0] <= lo or required[-1] > hi:
        return None
    return min(i for i, r in enumerate(required) if r <= hi)


def inputs(case):
    import ghedt.peak_load_analysis_tool as plat
    cls, m, fl, b, pipe, grout, soil = heat.parts(case.get("bhe", {"H": case["H"]}))
    lo, hi = case["limits"]
    sp = plat.media.SimulationParameters(1, 12, 35.0, 5.0, hi, lo)
    return cls, fl, b, pipe, grout, soil, sp


def snapshot(b, pipe, grout, soil, sp, xy):
    return str([b.H, b.D, b.r_b, b.x, b.y, pipe.pos, pipe.r_in, pipe.r_out, pipe.k, grout.k, soil.k, vars(sp), xy])


def final(case, ghe, sel, hi, what, height=True):
    """The heat exchanger that the search leaves."""
    n = len(sel)
    V = case["V"] * n if case["flow"] == "borehole" else case["V"]
    expect(fake.key(ghe.GFunction.bore_locations) == fake.key(sel), "%s: the heat exchanger left has %d boreholes, not those of the selected field (%d)", what, len(ghe.GFunction.bore_locations), n)
    expect_close(ghe.nbh, n, what + ": number of boreholes", rel=0, abs_=0)
    expect_close(ghe.V_flow_system, V, what + ": system flow rate of the heat exchanger left", rel=1e-12)
    m = V / n / 1000.0 * ghe.bhe.fluid.rho
    expect_close(ghe.bhe.m_flow_borehole, m, what + ": mass flow rate of a borehole", rel=1e-12)
    if height:
        expect_close(ghe.bhe.b.H, hi, what + ": height of the heat exchanger left", rel=1e-12)
    x, y = sel[0]
    B = ghe.bhe.b.r_b if n == 1 else max(ghe.bhe.b.r_b, ((sel[1][0] - x) ** 2 + (sel[1][1] - y) ** 2) ** 0.5)
    expect_close(ghe.B_spacing, B, what + ": spacing of the heat exchanger left", rel=1e-12)


def consistent(case, w, what):
    """Every heat exchanger made had the flow that was asked for, and g-functions for it."""
    for g in w.created:
        n = len(g.GFunction.bore_locations)
        V = case["V"] * n if case["flow"] == "borehole" else case["V"]
        m = V / n / 1000.0 * g.bhe.fluid.rho
        expect_close(g.V_flow_system, V, "%s: system flow rate of a heat exchanger with %d boreholes" % (what, n), rel=1e-12)
        expect_close(g.GFunction.m_flow, m, "%s: flow rate per borehole in the g-function of %d boreholes" % (what, n), rel=1e-12)
    for _, H, method in w.simulated:
        expect(method == case["method"], "%s: simulated with the %s method", what, method)


def check(case, lab):
    import ghedt as dt
    fields = make_fields(case["fields"], (lambda k: 0.01 * k) if case.get("alike") else None)
    n = len(fields)
    lo, hi = case["limits"]
    if "cross" in case:      # long domains: a smooth decrease, the fields from number "cross" on suffice
        k, c = case["cross"], (hi - 0.3 * lo) / (1.6 * hi - 0.3 * lo)
        req = [c + (1.0 - c) * (k - i - 0.5) / (n + 1.0) if i < k else c - c * (i - k + 0.5) / (n + 1.0) for i in range(n)]
    else:
        req = [case["required"][i % len(case["required"])] for i in range(n)]
    if case["monotone"]:
        req = sorted(set(req), reverse=True)
        fields = fields[:len(req)]
        n = len(fields)
    h = [0.3 * lo + r * (1.6 * hi - 0.3 * lo) for r in req]
    if min(min(abs(x - lo), abs(x - hi)) for x in h) < 1e-6 * hi:
        raise Discard()
    if case.get("exact") is not None:
        # the field that needs the least above the limit, or the most below it, needs exactly the maximum height: it just meets the limits
        where, bound = case["exact"]
        edge = float(hi if bound == "max" else lo)
        side = [i for i in range(n) if (h[i] > edge) == (where == "above")]
        if side:
            h[(max if where == "below" else min)(side, key=lambda i: h[i])] = edge
            lab("excess of exactly zero")
            if h[0] == lo:
                raise Discard()   # at the minimum height: selected or rejected as too small, both are right
    w = fake.World({fake.key(f): x for f, x in zip(fields, h)}, case["amplitude"], case["side"])
    cls, fl, b, pipe, grout, soil, sp = inputs(case)
    load = [0.0] * 8760
    given = copy.deepcopy(fields)
    before = snapshot(b, pipe, grout, soil, sp, fields)
    what = "search of %d fields needing %s m between %r and %r m" % (n, [round(x, 2) for x in h[:12]], lo, hi)
    res = None
    with fake.world(w):
        try:
            kw = {"disp": True} if case["disp"] else {}
            res = dt.search_routines.Bisection1D(given, case["V"], b, cls, fl, pipe, grout, soil, sp, load, method=case["method"], flow=case["flow"], **kw)
        except ValueError as e:
            err = str(e)
    expect(snapshot(b, pipe, grout, soil, sp, given) == before, "%s: the inputs changed", what)
    expect(not any(load), "%s: the loads changed", what)
    lab(case["flow"], case["method"], "monotone" if case["monotone"] else "arbitrary")
    if case["monotone"]:
        want = model(h, lo, hi)
        if want is None:
            expect(res is None, "%s selects field %r although it should be rejected", what, None if res is None else res.selection_key)
            lab("rejected: all sufficient" if h[0] < lo else "rejected: none sufficient")
            return
    else:
        want = None
        if res is None:
            bracket = lo < h[0] <= hi or (h[0] > hi >= h[-1])
            expect(not bracket, "%s is rejected (%s)", what, err)
            lab("rejected")
            return
    expect(res is not None, "%s is rejected: %s", what, "" if res is not None else err)
    k = res.selection_key
    expect(k is not None and 0 <= k < n and int(k) == k, "%s selects %r", what, k)
    expect(fake.key(res.selected_coordinates) == fake.key(fields[k]), "%s: the selected coordinates are not those of field %d", what, k)
    expect(h[k] <= hi, "%s selects field %d, which needs %r m", what, k, h[k])
    if want is not None:
        expect(k == want, "%s selects field %d (needs %r m) instead of %d (needs %r m)", what, k, h[k], want, h[want])
        lab("first" if want == 0 else "last" if want == n - 1 else "inside")
        lab.nt(0 < want < n - 1)
    final(case, res.ghe, fields[k], hi, what)
    consistent(case, w, what)


def check_flow(case, lab):
    """Any other way to give the flow is rejected."""
    import ghedt as dt
    lab.nt()
    cls, fl, b, pipe, grout, soil, sp = inputs({"H": 100.0, "limits": [60.0, 120.0]})
    w = fake.World({((0.0, 0.0),): 100.0})
    with fake.world(w):
        w.created.append(None)
        try:
            dt.search_routines.Bisection1D([[(0.0, 0.0)]], 0.2, b, cls, fl, pipe, grout, soil, sp, [0.0] * 8760, flow=case["flow"])
        except ValueError:
            return
    raise Violation("the flow %r is accepted" % case["flow"])


def real_excess(case, xy, H, V, flow, q, bhe_cfg):
    """Excess of a field at a height with a new heat exchanger and a g-function for exactly this height."""
    import ghedt as dt
    import ghedt.peak_load_analysis_tool as plat
    cfg = dict(bhe_cfg, H=H)
    cls, _, fl, b, pipe, grout, soil = heat.parts(cfg)
    n = len(xy)
    Vs = V * n if flow == "borehole" else V
    m = Vs / n / 1000.0 * fl.rho
    B = b.r_b if n == 1 else max(b.r_b, ((xy[1][0] - xy[0][0]) ** 2 + (xy[1][1] - xy[0][1]) ** 2) ** 0.5)
    g = dt.gfunction.compute_live_g_function(B, [H], [b.r_b], [b.D], m, cls, dt.utilities.Eskilson_log_times(), [tuple(p) for p in xy], fl, pipe, grout, soil)
    lo, hi = case["limits"]
    sp = plat.media.SimulationParameters(1, case.get("months", 12), case["temperatures"][0], case["temperatures"][1], hi, lo)
    ghe = dt.ground_heat_exchangers.GHE(Vs, B, cls, fl, b, pipe, grout, soil, g, sp, list(q))
    t = ghe.simulate(method=case.get("method", "hybrid"))
    return max(t[0] - case["temperatures"][0], case["temperatures"][1] - t[1])


def check_real(case, lab):
    """The real search against the real simulation of every field."""
    import ghedt as dt
    import ghedt.peak_load_analysis_tool as plat
    fields = [[(i * case["B"], j * case["B"]) for i in range(a) for j in range(b)] for a, b in case["sizes"]]
    lo, hi = case["limits"]
    q = loads.expand(case["load"])
    V = case["V"]
    top = [real_excess(case, f, hi, V, case["flow"], q, case["bhe"]) for f in fields]
    low = real_excess(case, fields[0], lo, V, case["flow"], q, case["bhe"])
    if min(abs(x) for x in top + [low]) < 1e-4:
        raise Discard()
    cls, _, fl, b, pipe, grout, soil = heat.parts(case["bhe"])
    sp = plat.media.SimulationParameters(1, case["months"], case["temperatures"][0], case["temperatures"][1], hi, lo)
    what = "search of %s boreholes with excesses %s (the first at %r m: %r)" % ([len(f) for f in fields], [round(x, 4) for x in top], lo, low)
    load = list(q)
    before = snapshot(b, pipe, grout, soil, sp, fields)
    res = None
    try:
        res = dt.search_routines.Bisection1D(fields, V, b, cls, fl, pipe, grout, soil, sp, load, flow=case["flow"])
    except ValueError as e:
        err = str(e)
    expect(snapshot(b, pipe, grout, soil, sp, fields) == before and load == q, "%s: the inputs changed", what)
    mono = all(x > y for x, y in zip(top, top[1:]))
    lab(case["flow"], "monotone" if mono else "arbitrary")
    if low > 0 > top[0]:
        want = 0
    elif top[0] > 0 > top[-1]:
        want = min(i for i, x in enumerate(top) if x <= 0)
    else:
        want = None
    if want is None:
        if mono:
            expect(res is None, "%s selects %r", what, None if res is None else res.selection_key)
        lab("rejected")
        if res is None:
            return
    expect(res is not None, "%s is rejected: %s", what, "" if res is not None else err)
    k = res.selection_key
    expect(top[k] <= 0 and fake.key(res.selected_coordinates) == fake.key(fields[k]), "%s selects field %r", what, k)
    if mono and want is not None:
        expect(k == want, "%s selects field %d instead of %d", what, k, want)
        lab.nt(0 < want < len(fields) - 1)
    final(dict(case), res.ghe, fields[k], hi, what)
    t = res.ghe.simulate("hybrid")
    e = max(t[0] - case["temperatures"][0], case["temperatures"][1] - t[1])
    expect_close(float(e), top[k], what + ": excess of the heat exchanger left", rel=1e-4, abs_=1e-4)


@st.composite
def world_cases(draw, nmax=70):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, nmax), st.sampled_from([1, 2, 3, 4, 31, 32, 33, 63])))
    step = draw(st.sampled_from([1, 1, 2, 5]))
    start = draw(st.sampled_from([1, 1, 2, 4, 20]))
    c = {"fields": [draw(st.sampled_from([5.0, 4.3, 7.5])), draw(st.integers(1, 6)), [start + step * i for i in range(n)], draw(st.sampled_from([0.0, 0.0, 2.5]))]}
    lo, hi = draw(st.sampled_from([(60.0, 135.0), (60, 135), (20.0, 50.0), (80.0, 81.0), (30.5, 200.0)]))
    c["limits"] = [lo, hi]
    v = st.one_of(st.floats(0.0, 1.0), st.floats(0.0, 1.0), st.sampled_from([0.3, 0.5, 0.6]))
    top = draw(st.sampled_from([1.0, 1.0, 0.72, 0.3]))
    c["required"] = [round(x * top, 9) for x in draw(st.lists(v, min_size=n, max_size=n))]
    c["monotone"] = draw(st.sampled_from([True, True, True, False]))
    c["amplitude"] = draw(st.sampled_from([4.0, 50.0, 0.01]))
    c["side"] = draw(st.sampled_from(["max", "min"]))
    c["flow"] = draw(st.sampled_from(["borehole", "borehole", "system"]))
    c["V"] = draw(st.sampled_from([0.2, 0.35, 31.2, 0.31725, 17.4368]))
    c["method"] = draw(st.sampled_from(["hybrid", "hybrid", "hourly"]))
    c["disp"] = draw(st.sampled_from([False, False, True]))
    c["H"] = draw(st.sampled_from([96.0, 60.0, 200.0]))
    if draw(st.integers(0, 3)) == 0:
        # fields of the same number of boreholes that differ inside
        run = draw(st.sampled_from([2, 5, 100]))
        c["alike"], c["fields"][2] = True, [start + 4 + step * (i // run) for i in range(n)]
    c["exact"] = draw(st.sampled_from([None, None, None, ["above", "max"], ["below", "max"], ["below", "min"], ["above", "min"]]))
    return c


@st.composite
def long_cases(draw):
    c = draw(world_cases(nmax=1))
    n = draw(st.one_of(st.integers(65, 500), st.sampled_from([64, 65, 128, 129, 256, 257, 512])))
    c["fields"][2] = list(range(1, n + 1))
    c["monotone"] = True
    c["cross"] = draw(st.integers(1, n - 1))
    del c["required"]
    c.pop("alike", None)
    return c


@st.composite
def reals(draw):
    c = {"sizes": draw(st.sampled_from([[[1, 1], [1, 2], [2, 2], [2, 3], [3, 3]], [[1, 1], [2, 1], [3, 1], [4, 1], [5, 1], [6, 1]], [[2, 1], [2, 2], [2, 3]], [[2, 2]]])), "B": draw(st.sampled_from([5.0, 6.5])),
         "limits": draw(st.sampled_from([[60.0, 120.0], [60, 100], [30.0, 80.0]])), "months": draw(st.sampled_from([12, 24])), "temperatures": draw(st.sampled_from([[35.0, 5.0], [30.0, 8.0]])),
         "flow": draw(st.sampled_from(["borehole", "system"])), "bhe": {"type": draw(st.sampled_from(["single", "single", "single", "multiple", "coaxial"])), "H": draw(st.sampled_from([96.0, 140.0]))}}
    if c["bhe"]["type"] == "multiple":
        c["bhe"].update(n=2, r_b=0.075, s=0.03, r_in=0.0108, r_out=0.013335)
    elif c["bhe"]["type"] == "coaxial":
        c["bhe"].update(r_b=0.07, r_in=[0.0221, 0.025], r_out=[0.0487, 0.055], k_p=[0.4, 0.4])
    c["V"] = 0.3 if c["flow"] == "borehole" else 1.2345
    peak = draw(st.sampled_from([3000.0, 8000.0, 16000.0, 30000.0]))
    c["load"] = {"base": draw(st.sampled_from([0.0, 300.0, -1000.0])), "annual": [peak * draw(st.sampled_from([1.0, -1.0])), draw(st.floats(0.0, 1.0))], "daily": [0.3 * peak, 0.4]}
    return c


SUBCHECKS = [
    Sub("flow", check_flow, cases=lambda tier: [{"flow": "boreholes"}, {"flow": ""}, {"flow": "System"}], shards=1),
    Sub("real", check_real, reals, quick=24, thorough=400, cpu_s=120),
    Sub("long", check, long_cases, quick=200, thorough=3000),
    Sub("search", check, world_cases, quick=3000, thorough=60000),
]
