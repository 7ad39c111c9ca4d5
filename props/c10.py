"""C10 Sizing returns the shallowest admissible height that meets the limits."""
import warnings

import numpy as np
from hypothesis import strategies as st

from vf import field, heat, loads
from vf.core import Discard, Inconclusive, Sub
from vf.util import expect, expect_close

ID = "C10"
RULE = ("ground heat exchangers (as for C09) with temperature limits chosen so that a drawn height between the limits is the answer, for either "
        "limit or both, and limits that no or every height meets; sized after 0 to 3 earlier operations (simulations, sizings, other heights) with the "
        "hybrid or the hourly method; horizons of up to 30 years with both methods and temperatures that vary as 1 / H in place of the superposition; non-trivial = the excess changes sign between the height limits")
ASSUMPTIONS = ["the excess temperature is evaluated with the independent superposition of C09", "the temperature limit is met to 1e-4 K (or crossed within 2 mm where the combined g-function, and with it the excess, jumps)",
               "cases with an excess within 1e-3 K of zero at a height limit, or increasing with height, are discarded"]


def excess(case, H, periods, uniform):
    b, eq, radial = field.reference_bhe(heat.height_of(case["bhe"], H))
    ref, _ = field.eft(case, H, periods[0], periods[1], b, radial, uniform=uniform)
    lim = case["limits"]
    return max(float(np.max(ref)) - lim[0], lim[1] - float(np.min(ref))), ref


def size(ghe, method):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        ghe.size(method=method)
    text = [str(x.message).lower() for x in w]
    return any("minimum height" in t for t in text), any("maximum height" in t for t in text)


def check(case, lab):
    case = dict(case)
    q = loads.expand(case["load"])
    lo, hi = case["heights"]
    method = case["method"]
    H0 = dict(heat.U_TUBE, **case["bhe"])["H"]
    if method == "hybrid":
        _, eq0, radial0 = field.reference_bhe(case["bhe"])
        periods = field.hybrid_periods(case, q, eq0, radial0)
    else:
        periods = field.hourly_periods(case, q)
    uni = method == "hourly"
    # temperature limits for the wanted answer
    target = lo + case["target"] * (hi - lo)
    case["limits"] = [1e9, -1e9, hi, lo]
    _, ref = excess(case, target, periods, uni)
    top, bottom = float(np.max(ref)), float(np.min(ref))
    ugt = dict(heat.U_TUBE, **case["bhe"])["ugt"]
    span = max(top - ugt, ugt - bottom)
    if span < 0.05:
        raise Discard()
    slack = case["slack"] * span
    if case["side"] == "max":
        case["limits"][0], case["limits"][1] = top, bottom - slack
    elif case["side"] == "min":
        case["limits"][0], case["limits"][1] = top + slack, bottom
    elif case["side"] == "loose":
        case["limits"][0], case["limits"][1] = ugt + 20 * span, ugt - 20 * span
    else:
        case["limits"][0], case["limits"][1] = ugt + 0.1 * max(0.0, top - ugt) + 0.01, ugt - 0.01 - 0.1 * max(0.0, ugt - bottom)
    e_lo, r_lo = excess(case, lo, periods, uni)
    e_hi, r_hi = excess(case, hi, periods, uni)
    if min(abs(e_lo), abs(e_hi)) < 1e-3 or e_hi > e_lo:
        raise Discard()
    ghe = field.make(case, q)
    if method == "hybrid" and field.agreed(periods, ghe) is not periods:
        lab("periods created by rounding")
        periods = field.agreed(periods, ghe)
        r_lo, r_hi = excess(case, lo, periods, uni)[1], excess(case, hi, periods, uni)[1]
    for op, arg in case["history"]:
        if op == "height":
            ghe.bhe.b.H = arg
        elif op == "simulate":
            ghe.bhe.b.H = arg
            ghe.simulate(method="hybrid")
        else:
            size(ghe, "hybrid")
        lab("after " + op)
    for again in range(2 if case["again"] else 1):
        at_min, at_max = size(ghe, method)
        H = float(ghe.bhe.b.H)
        what = "sizing between %r and %r m (excess %r and %r K)%s" % (lo, hi, e_lo, e_hi, ", again" if again else "")
        expect(lo <= H <= hi, "%s gives %r m", what, H)
        if e_lo > 0 > e_hi:
            lab("root")
            lab.nt()
            e, ref = excess(case, H, periods, uni)
            if abs(e) > 1e-4:     # the combined g-function steps with the height: the excess may jump over zero
                d = 2e-3 * (1 if e > 0 else -1)
                e2, _ = excess(case, H + d, periods, uni)
                expect(e * e2 <= 0.0, "%s gives %r m where the excess is %r K (%r K at %r m)", what, H, e, e2, H + d)
                lab("the excess jumps over zero")
            if case["side"] in ("max", "min") and lo + 0.01 < H < hi - 0.01:
                expect(not at_min and not at_max, "%s gives %r m and warns about a limit", what, H)
        elif e_hi > 0:
            lab("undersized")
            expect(abs(H - hi) <= 1e-9 * hi, "%s gives %r m", what, H)
            ref = r_hi
            expect(at_max and not at_min, "%s: warning about the maximum: %s, about the minimum: %s", what, at_max, at_min)
        else:
            lab("oversized")
            expect(abs(H - lo) <= 1e-9 * lo, "%s gives %r m", what, H)
            ref = r_lo
            expect(at_min and not at_max, "%s: warning about the maximum: %s, about the minimum: %s", what, at_max, at_min)
        got = np.asarray(ghe.HPEFT, dtype=float)
        expect(len(got) == len(ref), "%s: %d temperatures for %d periods", what, len(got), len(ref))
        expect(float(np.max(np.abs(got - ref))) <= 1e-4 + 1e-5 * span, "%s: the stored temperatures are not those at %r m (%r K)", what, H, float(np.max(np.abs(got - ref))))
    lab(method, case["bhe"]["type"])


def check_cost(case, lab):
    ghe = _ghe()
    sp = ghe.sim_params
    keep = sp.max_EFT_allowable, sp.min_EFT_allowable
    try:
        sp.max_EFT_allowable, sp.min_EFT_allowable = case["limits"]
        t1, t0 = case["max"], case["min"]
        c = float(ghe.cost(t1, t0))
    finally:
        sp.max_EFT_allowable, sp.min_EFT_allowable = keep
    expect_close(c, max(t1 - case["limits"][0], case["limits"][1] - t0), "the excess of %r..%r with limits %s" % (t0, t1, case["limits"]), abs_=1e-12)
    lab.nt(c > 0)


_cache = {}


def _ghe():
    if "g" not in _cache:
        _cache["g"] = field.make({"bhe": {"type": "single"}, "field": {"B": 5.0, "nx": 2, "ny": 2, "heights": [60.0, 97.5, 135.0], "r_b": [0.075] * 3},
                                  "start": 1, "end": 12}, [1000.0] * 8760)
    return _cache["g"]


def check_horizon(case, lab):
    """Sizing over decades, with temperatures that vary as 1 / H instead of the superposition (too long for hourly loads)."""
    case = dict(case)
    q = loads.expand(case["load"])
    lo, hi = case["heights"]
    case["limits"] = [35.0, 5.0, hi, lo]
    ghe = field.make(case, q)
    sig = field.superposes(ghe)
    if sig is None:
        raise Inconclusive("superposed elsewhere")
    ugt = dict(heat.U_TUBE, **case["bhe"])["ugt"]
    method = case["method"]
    if method == "hourly":
        hours, w = field.hourly_periods(case, q)
    else:
        _, eq0, radial0 = field.reference_bhe(case["bhe"])
        hours, w = field.agreed(field.hybrid_periods(case, q, eq0, radial0), ghe)
    up, down = max(0.0, float(np.max(w))), min(0.0, float(np.min(w)))
    if up - down < 1.0:
        raise Discard()
    c = 1000.0 / max(up, -down)
    bad = []

    calls = []

    def stand_in(*args, **kw):
        Q, t = list(sig.bind(*args, **kw).arguments.values())[:2]
        calls.append(len(t))
        Q, t = np.asarray(Q, dtype=float), np.asarray(t, dtype=float)
        if not bad and (len(t) != len(hours) or len(Q) != len(w)):
            bad.append("%d periods at %d times, expected %d" % (len(Q), len(t), len(hours)))
        elif not bad and abs(t[-1] - hours[-1]) > 1e-6 * hours[-1] + 1e-3:
            bad.append("the last hour is %r, expected %r" % (float(t[-1]), float(hours[-1])))
        T = ugt + c * Q / float(ghe.bhe.b.H)
        return T.tolist(), (T - ugt).tolist()

    probe = field.make(dict(case, end=case["start"]), q)
    probe._simulate_detailed = stand_in
    probe.simulate(method=method)
    if len(calls) != 1:
        raise Inconclusive("superposed elsewhere")
    bad.clear()
    ghe._simulate_detailed = stand_in
    target = lo + case["target"] * (hi - lo)
    binding = "max" if (case["side"] == "max" and up > 0.0) or down == 0.0 else "min"
    # the drawn height meets the binding limit exactly, a shallower one the other
    top = ugt + c * up / target if binding == "max" else ugt + c * up / lo * 1.5 + 1.0
    bottom = ugt + c * down / target if binding == "min" else ugt + c * down / lo * 1.5 - 1.0
    ghe.sim_params.max_EFT_allowable, ghe.sim_params.min_EFT_allowable = top, bottom
    at_min, at_max = size(ghe, method)
    H = float(ghe.bhe.b.H)
    what = "%s sizing between %r and %r m over months %d..%d" % (method, lo, hi, case["start"], case["end"])
    expect(not bad, "%s simulates %s", what, bad and bad[0])
    want = min(max(target, lo), hi)
    expect(abs(H - want) <= 1e-4 * hi, "%s gives %r m, expected %r m", what, H, want)
    expect(at_max == (target > hi) and at_min == (target < lo), "%s gives %r m; warning about the maximum: %s, about the minimum: %s", what, H, at_max, at_min)
    got = np.asarray(ghe.HPEFT, dtype=float)
    expect(len(got) == len(hours) and abs(float(np.max(got)) - (ugt + c * float(np.max(w)) / H)) <= 1e-6 * (1.0 + abs(c * up)), "%s: the stored temperatures are not those at %r m", what, H)
    lab(method, "%d years or more" % (10 * ((case["end"] - case["start"] + 1) // 120)), "within" if lo < target < hi else "beyond")
    lab.nt(lo < target < hi and case["end"] - case["start"] >= 12)


def check_live(case, lab):
    """With g-functions computed for the height limits."""
    import ghedt as dt
    lo, hi = case["heights"]
    q = loads.expand(case["load"])
    c = dict(case, limits=[case["max"], case["min"], hi, lo], field={"B": case["B"], "nx": case["nx"], "ny": case["ny"], "heights": [100.0], "r_b": [0.075]})
    ghe = field.make(c, q)
    xy = list(ghe.GFunction.bore_locations)
    ghe.compute_g_functions()
    g = ghe.GFunction
    expect(sorted(g.g_lts) == sorted([lo, (lo + hi) / 2.0, hi]), "g-functions are computed at %s for limits %r and %r", sorted(g.g_lts), lo, hi)
    full = dict(heat.U_TUBE, **case["bhe"])
    expect(set(g.r_b_values.values()) == {full["r_b"]} and set(g.D_values.values()) == {full["D"]}, "g-functions are computed for radii %s and depths %s instead of %r and %r",
           sorted(g.r_b_values.values()), sorted(g.D_values.values()), full["r_b"], full["D"])
    expect(list(g.bore_locations) == xy and abs(g.B - case["B"]) < 1e-12, "the field changes when its g-functions are computed")
    at_min, at_max = size(ghe, "hybrid")
    H = float(ghe.bhe.b.H)
    what = "sizing between %r and %r m" % (lo, hi)
    expect(lo <= H <= hi, "%s gives %r m", what, H)

    def fresh(h):
        f = field.make(c, q)
        f.GFunction = dt.gfunction.GFunction(g.B, dict(g.r_b_values), dict(g.D_values), {k: list(v) for k, v in g.g_lts.items()}, list(g.log_time), list(g.bore_locations))
        f.bhe.b.H = h
        t = f.simulate("hybrid")
        return max(t[0] - case["max"], case["min"] - t[1])

    e_lo, e_hi, e = fresh(lo), fresh(hi), fresh(H)
    if e_lo > 1e-3 and e_hi < -1e-3:
        lab("root")
        lab.nt()
        expect(abs(e) <= 1e-4, "%s gives %r m where the excess is %r K", what, H, e)
    elif e_hi > 1e-3:
        lab("undersized")
        expect(H == hi and at_max, "%s gives %r m with excess %r at the maximum", what, H, e_hi)
    elif e_lo < -1e-3:
        lab("oversized")
        expect(H == lo and at_min, "%s gives %r m with excess %r at the minimum", what, H, e_lo)


@st.composite
def cases(draw):
    lo, hi = draw(st.sampled_from([(60.0, 135.0), (60.0, 135.0), (50.0, 80.0), (60.5, 100.25), (80, 120), (45.0, 150.0), (20.0, 150.0), (20, 300), (30.0, 200.0)]))
    c = {"bhe": draw(heat.configs(kinds=("single", "single", "single", "multiple", "coaxial"), hmin=50.0, hmax=140.0)), "heights": [lo, hi], "load": draw(loads.spec(hi=4.3))}
    c["field"] = draw(field.fields(heights=draw(st.sampled_from([[lo, (lo + hi) / 2, hi], [lo, (lo + hi) / 2, hi], [0.9 * lo, 1.1 * hi], [24.0, 48.0, 96.0, 192.0, 384.0]]))))
    c["method"] = draw(st.sampled_from(["hybrid", "hybrid", "hybrid", "hybrid", "hourly"]))
    c["start"] = draw(st.one_of(st.just(1), st.integers(1, 12)))
    n = draw(st.sampled_from([12, 12, 13, 24, 6, 1, 3, 60, 240])) if c["method"] == "hybrid" else draw(st.sampled_from([1, 2]))
    if lo < 30.0:
        n = min(n, 60)        # the g-functions reach ln(t/ts) = 3.003
    c["end"] = c["start"] + n - 1
    d = draw(st.sampled_from([0.2, 0.4, 0.9])) / (hi - lo)      # an answer within a metre of a limit
    c["target"] = draw(st.one_of(st.floats(0.02, 0.98), st.sampled_from([0.5, 0.1, 0.9, 0.03, 0.06, 0.97]), st.sampled_from([d, 1.0 - d])))
    c["side"] = draw(st.sampled_from(["max", "max", "min", "min", "loose", "tight"]))
    c["slack"] = draw(st.sampled_from([0.0, 0.3, 3.0]))
    c["history"] = [draw(st.sampled_from([["height", 70.0], ["height", 120.0], ["simulate", 63.0], ["simulate", 99.0], ["size", 0]]))
                    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3])))]
    c["again"] = draw(st.sampled_from([False, False, True]))
    return c


@st.composite
def horizons(draw):
    lo, hi = draw(st.sampled_from([(60.0, 135.0), (60.0, 135.0), (45.0, 150.0), (80, 120)]))
    c = {"bhe": {"type": "single", "H": draw(st.sampled_from([100.0, 72.0]))}, "heights": [lo, hi], "load": draw(loads.spec(hi=4.3)),
         "field": {"B": 5.0, "nx": draw(st.integers(1, 6)), "ny": draw(st.integers(1, 6)), "heights": [lo, (lo + hi) / 2, hi], "r_b": [0.075] * 3}}
    c["method"] = draw(st.sampled_from(["hybrid", "hourly", "hourly"]))
    c["start"] = draw(st.one_of(st.just(1), st.integers(1, 24)))
    c["end"] = c["start"] + draw(st.one_of(st.integers(1, 360), st.sampled_from([12, 24, 36, 60, 120, 240, 300]))) - 1
    c["target"] = draw(st.one_of(st.floats(0.02, 0.98), st.floats(0.02, 0.98), st.sampled_from([-0.2, 1.2, 0.5])))
    c["side"] = draw(st.sampled_from(["max", "min"]))
    return c


def costs():
    t = st.one_of(st.floats(-50, 100), st.sampled_from([0.0, 5.0, 35.0]))
    return st.fixed_dictionaries({"limits": st.tuples(t, t), "max": t, "min": t})


@st.composite
def live(draw):
    lo, hi = draw(st.sampled_from([(60.0, 135.0), (60, 120), (50.0, 80.0), (25.0, 180.0)]))
    return {"bhe": {"type": "single", "H": draw(st.sampled_from([96.0, 60.0])), "D": draw(st.sampled_from([2.0, 4.0, 0.5])), "r_b": draw(st.sampled_from([0.075, 0.06, 0.09]))}, "heights": [lo, hi], "start": 1, "end": draw(st.sampled_from([12, 24])),
            "B": 5.0, "nx": draw(st.integers(1, 3)), "ny": draw(st.integers(1, 2)), "max": draw(st.sampled_from([35.0, 28.0, 45.0])),
            "min": draw(st.sampled_from([5.0, 12.0, -2.0])),
            "load": {"base": draw(st.sampled_from([0.0, 500.0, -800.0])), "annual": [draw(st.sampled_from([2000.0, 5000.0, 9000.0])), 0.03],
                     "daily": [draw(st.sampled_from([500.0, 2000.0])), 0.4]}}


SUBCHECKS = [
    Sub("cost", check_cost, costs, quick=400, shards=1),
    Sub("horizon", check_horizon, horizons, quick=64, thorough=1500, cpu_s=120),
    Sub("live", check_live, live, quick=16, thorough=200),
    Sub("size", check, cases, quick=64, thorough=1500, cpu_s=120),
]
