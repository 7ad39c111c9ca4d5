"""C09 Simulated fluid temperatures equal temporal superposition of the loads."""
import numpy as np
from hypothesis import strategies as st

from vf import field, heat, loads
from vf.core import Inconclusive, Sub
from vf.util import expect, expect_close, expect_raises

ID = "C09"
RULE = ("heat exchangers (single and multiple U-tube, coaxial), fields of 1 to 36 boreholes with analytic g-functions at two to five heights (some used at a spacing a little off theirs), load "
        "profiles as for C06, horizons of 1 to 360 months (hourly: up to 5, some 12 to 26) from any start month (also shallow boreholes over decades; the hours and loads of the hourly method over up to 50 years), after 0 to 2 earlier simulations at "
        "other heights; every temperature is compared with an independent superposition; non-trivial = a load changes at least twice")
ASSUMPTIONS = ["the resistances, the equivalent U-tube, the short-time-step response and the hybrid sequence are those of newly created objects "
               "(decided by C07, C08, C11 to C13)", "temperatures agree to 1e-7 of the largest temperature change plus 1e-9 K",
               "the hybrid sequence belongs to the height at creation, as documented in the code", "heights stay within or near the computed curves", "over decades the hourly method is checked by the hours and loads it hands to its superposition (_simulate_detailed), and skipped when that is gone", "beyond the last time of the g-functions (ln(t/ts) = 3.003, many decades) the simulation is rejected or holds the last value"]


def tolerance(ref, ugt):
    return 1e-9 + 1e-7 * float(np.max(np.abs(np.asarray(ref) - ugt)))


def check_series(got, ref, ugt, what):
    expect(len(got) == len(ref), "%s: %d temperatures for %d periods", what, len(got), len(ref))
    got = np.asarray(got, dtype=float)
    expect(bool(np.all(np.isfinite(got))), "%s: a temperature is not finite", what)
    err = np.abs(got - ref)
    k = int(np.argmax(err))
    expect(err[k] <= tolerance(ref, ugt), "%s: temperature %d of %d is %r, expected %r", what, k + 1, len(ref), got[k], ref[k])


def check(case, lab):
    q = loads.expand(case["load"])
    keep = list(q)
    H0 = dict(heat.U_TUBE, **case["bhe"])["H"]
    ghe = field.make(case, q)
    for H, method in case["history"]:
        ghe.bhe.b.H = H
        ghe.simulate(method=method)
        lab("after an earlier simulation")
    H, method = case["H"] or H0, case["method"]
    ghe.bhe.b.H = H
    if case.get("beyond"):
        soil = dict(heat.U_TUBE, **case["bhe"])
        far = (field.month_start(case["end"] + 1) - field.month_start(case["start"])) * 3600.0 > H * H / (9.0 * soil["k_s"] / soil["rc_s"]) * np.exp(field.LOG_TIME[-1])
        lab("beyond the g-functions" if far else "within the g-functions")
        try:
            ghe.simulate(method=method)
        except ValueError:
            expect(far, "months %d..%d at %r m are rejected", case["start"], case["end"], H)
            lab("rejected")
            lab.nt()
            return
    hi, lo = ghe.simulate(method=method)
    if case["field"].get("ratio", 1.0) != 1.0:
        lab("another spacing")
    lab(method, case["bhe"]["type"], "%d curves" % len(case["field"]["heights"]))
    if case["H"]:
        lab("height changed")
    expect(q == keep, "simulating changes the loads")
    c = dict(heat.U_TUBE, **case["bhe"])
    b, eq, radial = field.reference_bhe(heat.height_of(case["bhe"], H))
    if method == "hybrid":
        _, eq0, radial0 = field.reference_bhe(heat.height_of(case["bhe"], H0))
        hours, w = field.agreed(field.hybrid_periods(case, q, eq0, radial0), ghe)
    else:
        hours, w = field.hourly_periods(case, q)
    ref, dT = field.eft(case, H, hours, w, b, radial, uniform=(method == "hourly"))
    what = "%s simulation of months %d..%d at %r m" % (method, case["start"], case["end"], H)
    check_series(ghe.HPEFT, ref, c["ugt"], what)
    expect(hi == max(ghe.HPEFT) and lo == min(ghe.HPEFT), "%s: the extremes are %r and %r, the series has %r and %r", what, hi, lo, max(ghe.HPEFT), min(ghe.HPEFT))
    lab.nt(int(np.count_nonzero(np.diff(w))) >= 2)
    expect_raises(ValueError, lambda: ghe.simulate(method="monthly"), "a simulation method that does not exist")


def check_relations(case, lab):
    """Causality, linearity, direction and the zero load, without a reference model."""
    rng = np.random.default_rng(case["seed"])
    q1 = np.asarray(loads.expand(case["load"]))
    ugt = dict(heat.U_TUBE, **case["bhe"])["ugt"]

    def run(q, method="hourly"):
        g = field.make(case, [float(x) for x in q])
        g.simulate(method=method)
        return np.asarray(g.HPEFT)

    a = run(q1)
    n = len(a)
    tol = tolerance(a, ugt)
    expect(n == len(field.hourly_periods(case, q1.tolist())[0]), "months %d..%d give %d temperatures", case["start"], case["end"], n)
    if case["relation"] == "cause":
        k = int(rng.integers(1, n))
        first = field.month_start(case["start"])
        q2 = q1.copy()
        for i in range(k, n):          # hour i of the simulation is hour (first + i) % 8760 of the profile
            j = (first + i) % 8760
            if n <= 8760:
                q2[j] = q1[j] * -0.5 + 777.0
        d = np.abs(run(q2) - a)
        lab("causality")
        lab.nt(n <= 8760)
        expect(float(np.max(d[:k])) <= 1e-9 * (1 + float(np.max(d))), "loads from hour %d on change the temperature of hour %d by %r K", k + 1,
               int(np.argmax(d[:k])) + 1, float(np.max(d[:k])))
        if n <= 8760:
            expect(d[k] > 0.0, "a changed load in hour %d does not change its temperature", k + 1)
    elif case["relation"] == "linear":
        q2 = 3e3 * np.sin(np.arange(8760) / 5.0) + 1e3
        bb = run(q2)
        s = run(1.5 * q1 - 0.25 * q2)
        lab("linearity")
        lab.nt()
        exp = ugt + 1.5 * (a - ugt) - 0.25 * (bb - ugt)
        d = np.abs(s - exp)
        expect(float(np.max(d)) <= 10 * tol + 10 * tolerance(bb, ugt), "the temperatures are not linear in the loads: %r K at hour %d", float(np.max(d)), int(np.argmax(d)) + 1)
    elif case["relation"] == "scale":
        g1, g2 = run(q1, "hybrid"), run(2.0 * q1, "hybrid")
        lab("scaling, hybrid")
        lab.nt()
        expect(len(g1) == len(g2), "doubling the loads changes the number of periods")
        d = np.abs(g2 - ugt - 2.0 * (g1 - ugt))
        expect(float(np.max(d)) <= 100 * tolerance(g2, ugt), "doubled loads do not double the temperature changes (%r K)", float(np.max(d)))
    elif case["relation"] == "zero":
        lab("zero load")
        lab.nt()
        for m in ("hybrid", "hourly"):
            z = run(0.0 * q1, m)
            expect(float(np.max(np.abs(z - ugt))) <= 1e-12 * (1 + abs(ugt)), "without loads the %s temperatures are %r..%r, ground at %r", m, z.min(), z.max(), ugt)
    else:
        sgn = 1.0 if case["seed"] % 2 else -1.0
        lab("extraction" if sgn > 0 else "rejection")
        lab.nt()
        for m in ("hybrid", "hourly"):
            z = run(np.full(8760, sgn * 2000.0), m)
            expect((z[-1] - ugt) * sgn < 0.0, "a constant %s ends at %r, ground at %r (%s)", "extraction" if sgn > 0 else "rejection", z[-1], ugt, m)


@st.composite
def cases(draw):
    deep = draw(st.integers(0, 19)) == 7
    c = {"bhe": draw(heat.configs(hmin=251.0, hmax=290.0) if deep else heat.configs(hmin=50.0, hmax=140.0)),
         "field": draw(field.fields(heights=[180.0, 270.0, 340.0]) if deep else field.fields()), "load": draw(loads.spec())}
    c["method"] = draw(st.sampled_from(["hybrid", "hybrid", "hybrid", "hourly"]))
    c["start"] = draw(st.one_of(st.just(1), st.integers(1, 12)))
    if c["method"] == "hybrid":
        months = draw(st.one_of(st.integers(1, 36), st.sampled_from([12, 13, 24, 25, 36, 48, 60, 120, 240, 360])))
    else:
        months = draw(st.sampled_from([1, 2, 3, 4, 5]))
    c["end"] = c["start"] + months - 1
    hs = c["field"]["heights"]
    if not deep and draw(st.integers(0, 4)) == 0:          # a spacing other than that of the g-functions
        c["field"]["ratio"] = draw(st.sampled_from([0.97, 1.03, 1.015625]))
    hh = st.builds(lambda x: round(x, 3), st.floats(max(40.0, 0.9 * hs[0]), min(420.0 if deep else 200.0, 1.1 * hs[-1])))
    c["H"] = draw(st.one_of(st.none(), hh, st.sampled_from([h for h in hs if 40 <= h <= (420 if deep else 200)])))
    c["history"] = [[draw(hh), draw(st.sampled_from(["hybrid", "hybrid", "hybrid"]))] for _ in range(0 if deep else draw(st.sampled_from([0, 0, 1, 1, 2])))]
    return c


@st.composite
def shallow(draw):
    """Shallow boreholes over many years, up to and beyond the last time of the g-functions."""
    c = {"bhe": draw(heat.configs(hmin=20.0, hmax=60.0)), "field": draw(field.fields(heights=[20.0, 35.0, 60.0])), "load": draw(loads.spec()), "method": "hybrid", "history": [], "H": None, "beyond": True}
    c["start"] = draw(st.integers(1, 12))
    c["end"] = c["start"] + draw(st.sampled_from([60, 120, 200, 300, 400])) - 1
    return c


def check_horizon(case, lab):
    """The hours and loads that the hourly method superposes over decades (too many for an hourly superposition)."""
    q = loads.expand(case["load"])
    seen = []
    ghe = field.make(case, q)
    sig = field.superposes(ghe)
    if sig is None:
        raise Inconclusive("superposed elsewhere")

    def record(*args, **kw):
        Q, t = list(sig.bind(*args, **kw).arguments.values())[:2]
        seen.append((np.array(Q, dtype=float), np.array(t, dtype=float)))
        return [0.0] * len(t), [0.0] * len(t)

    probe = field.make(dict(case, end=case["start"]), q)
    probe._simulate_detailed = record
    probe.simulate(method="hourly")
    if len(seen) != 1:
        raise Inconclusive("superposed elsewhere")
    ghe._simulate_detailed = record
    ghe.simulate(method="hourly")
    Q, t = seen[-1]
    hours, w = field.hourly_periods(case, q)
    what = "hourly simulation of months %d..%d" % (case["start"], case["end"])
    expect(len(t) == len(hours) and len(Q) == len(w), "%s: %d hours with %d loads, expected %d", what, len(t), len(Q), len(hours))
    expect(bool(np.all(t == hours)), "%s: hour %d is %r", what, int(np.argmax(t != hours)) + 1, t[int(np.argmax(t != hours))])
    k = int(np.argmax(np.abs(Q - w)))
    expect(abs(Q[k] - w[k]) <= 1e-9 * (1.0 + abs(w[k])), "%s: the rejection of hour %d is %r, expected %r", what, k + 1, Q[k], w[k])
    lab("%d years or more" % (10 * (len(t) // 87600)))
    lab.nt(len(t) > 8760)


@st.composite
def horizons(draw):
    c = {"bhe": {"type": "single", "H": 100.0}, "field": {"B": 5.0, "nx": 2, "ny": 2, "heights": [60.0, 97.5, 135.0], "r_b": [0.075] * 3}, "load": draw(loads.spec())}
    c["start"] = draw(st.one_of(st.just(1), st.integers(1, 12), st.integers(13, 30)))
    c["end"] = c["start"] + draw(st.one_of(st.integers(1, 600), st.sampled_from([12, 24, 120, 240, 360, 480]))) - 1
    return c


@st.composite
def relations(draw):
    c = {"bhe": draw(heat.configs(kinds=("single",), hmin=50.0, hmax=140.0)), "field": draw(field.fields()), "load": draw(loads.spec())}
    c["relation"] = draw(st.sampled_from(["cause", "cause", "linear", "scale", "zero", "sign"]))
    c["start"] = draw(st.one_of(st.just(1), st.integers(1, 12)))
    c["end"] = c["start"] + draw(st.sampled_from([0, 1, 2]))
    c["seed"] = draw(st.integers(0, 9999))
    return c


def years(tier):
    """Full years with the hourly method, across the end of the year, and long hybrid horizons."""
    base = {"bhe": {"type": "single", "H": 100.0}, "history": [], "H": None,
            "field": {"B": 5.0, "nx": 3, "ny": 4, "heights": [60.0, 97.5, 135.0], "r_b": [0.075] * 3, "strength": 1.0},
            "load": {"base": 500.0, "annual": [20000.0, 0.03], "daily": [9000.0, 0.1], "noise": [1000.0, 7]}}
    for start, end in ((1, 12), (7, 18), (2, 14), (12, 37)):
        yield dict(base, method="hourly", start=start, end=end)
    yield dict(base, method="hybrid", start=1, end=240)
    yield dict(base, method="hybrid", start=9, end=608)
    yield dict(base, method="hybrid", start=4, end=123, H=60.0)


SUBCHECKS = [
    Sub("years", check, cases=years, shards=7, cpu_s=120),
    Sub("horizon", check_horizon, horizons, quick=60, thorough=1500),
    Sub("shallow", check, shallow, quick=24, thorough=600, cpu_s=120),
    Sub("series", check, cases, quick=200, thorough=4000),
    Sub("relations", check_relations, relations, quick=72, thorough=1200),
]
