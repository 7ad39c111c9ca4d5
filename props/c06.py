"""C06 Hourly loads split into rejection/extraction and monthly statistics exactly."""
import math

from hypothesis import strategies as st

from vf import heat, loads
from vf.core import Sub
from vf.util import expect, expect_close, expect_raises

ID = "C06"
RULE = ("whole-year profiles (seasonal, daily, noisy, constant, one-sided, with zero months, with events at the edges of hours, days, "
        "months and the year) in W or kW, 365 and 366 day years, and wrong lengths; compared with an independent recomputation; "
        "non-trivial = both rejection and extraction occur, or a month's peak falls on its first or last day")
ASSUMPTIONS = ["profiles are lists of finite numbers", "totals and averages are compared to 1e-9 relative, peaks and days exactly"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def check_split(case, lab):
    from ghedt.peak_load_analysis_tool import ground_loads as gl
    q = case["q"]
    keep = list(q)
    kw = {} if case["units"] is None else {"units": case["units"]}
    scale = 1.0 if case["units"] == "kW" else 1000.0
    rej, ext = gl.HybridLoad.split_heat_and_cool(q, **kw)
    expect(q == keep, "splitting changes the profile it was given")
    expect(len(rej) == len(q) and len(ext) == len(q), "splitting %d hours gives %d and %d", len(q), len(rej), len(ext))
    lab.nt(any(x > 0 for x in q) and any(x < 0 for x in q))
    for i, x in enumerate(q):
        r, e = float(rej[i]), float(ext[i])
        expect(r >= 0.0 and e >= 0.0, "hour %d: load %r is split into rejection %r and extraction %r", i, x, r, e)
        expect(r == 0.0 or e == 0.0, "hour %d: load %r is split into both rejection %r and extraction %r", i, x, r, e)
        expect_close(e - r, x / scale, "hour %d: extraction less rejection" % i, rel=1e-12, abs_=0.0)


def compare(df, what_by_side, lab):
    for side in ("rejection", "extraction"):
        tot, avg, peak, day = what_by_side[side]
        for m in range(1, 13):
            w = "%s, %s: " % (MONTHS[m - 1], side)
            get = lambda f: float(df[(f, side)][MONTHS[m - 1]])   # noqa: E731
            expect_close(get("Total"), tot[m], w + "total", abs_=0.0)
            expect_close(get("Average"), avg[m], w + "average", abs_=0.0)
            expect(get("Peak") == peak[m], "%speak is %r, expected %r", w, get("Peak"), peak[m])
            expect(get("Peak Day") == day[m], "%speak day is %r, expected %r (peak %r)", w, get("Peak Day"), day[m], peak[m])


def check_stats(case, lab):
    import ghedt.peak_load_analysis_tool as plat
    q = [x * case["factor"] for x in loads.expand(case["load"])]
    u, radial = heat.radial(heat.POOL[case["bhe"]])
    rej, ext = plat.ground_loads.HybridLoad.split_heat_and_cool(q)
    r2, e2 = loads.split(q)
    kr, ke = list(rej), list(ext)
    h = plat.ground_loads.HybridLoad(rej, ext, u, radial, plat.media.SimulationParameters(1, 12, 35.0, 5.0, 150.0, 60.0))
    expect(rej == kr and ext == ke, "the hourly profiles are changed by the monthly analysis")
    sr, se = loads.stats(r2), loads.stats(e2)
    if any(x > 0 for x in sr[2]) and any(x > 0 for x in se[2]):
        lab("two-sided")
        lab.nt()
    for s in (sr, se):
        for m in range(1, 13):
            if s[3][m] in (1, loads.DAYS[m]):
                lab("peak on a first or last day")
                lab.nt()
            if s[3][m] == 0:
                lab("month without load")
    df = h.create_dataframe_of_peak_analysis()
    expect(list(df.index) == MONTHS, "the months of the analysis are %s", list(df.index))
    compare(df, {"rejection": sr, "extraction": se}, lab)


def flat_g():
    """A short-time-step response of the right shape that is cheap to evaluate."""
    from scipy.interpolate import interp1d
    return interp1d([-60.0, 5.0], [0.5, 7.0])


def check_year(case, lab):
    from ghedt.peak_load_analysis_tool import ground_loads as gl
    year = case["year"]
    n = loads.first_hours(year)[13]
    hours = n + case["extra"]
    q = [abs(x) / 1000.0 for x in loads.expand(case["load"], 8784)]
    q = (q + q)[:hours]
    make = lambda: gl.Loads(q, flat_g(), 1e9, 12.0, 0.15, year=year)   # noqa: E731
    if hours != n:
        lab("wrong length")
        expect_raises(Exception, make, "a profile of %d hours for %d" % (hours, year))
        return
    lab("leap year" if n == 8784 else "365 days")
    lab.nt(n == 8784)
    a = make()
    if case.get("both"):
        import ghedt.peak_load_analysis_tool as plat
        u, radial = heat.radial(heat.POOL[case["bhe"]])
        rej = [0.3 * x for x in q[::-1]]
        sim = plat.media.SimulationParameters(1, 12, 35.0, 5.0, 150.0, 60.0)
        h = gl.HybridLoad(list(rej), list(q), u, radial, sim, year=year)
        compare(h.create_dataframe_of_peak_analysis(), {"rejection": loads.stats(rej, year), "extraction": loads.stats(q, year)}, lab)
        lab("both sides")
    tot, avg, peak, day = loads.stats(q, year)
    for m in range(1, 13):
        w = "%d month %d: " % (year, m)
        expect_close(a.monthly_total[m], tot[m], w + "total", abs_=0.0)
        expect_close(a.monthly_average[m], avg[m], w + "average", abs_=0.0)
        expect(a.monthly_peak[m] == peak[m], "%speak is %r, expected %r", w, a.monthly_peak[m], peak[m])
        expect(a.monthly_peak_day[m] == day[m], "%speak day is %r, expected %r", w, a.monthly_peak_day[m], day[m])


def check_units(case, lab):
    from ghedt.peak_load_analysis_tool import ground_loads as gl
    lab.nt()
    if case["units"] not in ("W", "kW"):
        expect_raises(ValueError, lambda: gl.HybridLoad.split_heat_and_cool([1.0], units=case["units"]), "unit %r" % case["units"])


def wrong_units(tier):
    for u in ("w", "kw", "MW", "", "Btu/h"):
        yield {"units": u}


def splits():
    num = st.one_of(st.floats(-1e7, 1e7, allow_nan=False), st.sampled_from([0.0, -0.0, 1, -1, 1e-9, -1e-9, 1000.0, -1000.0]))
    return st.fixed_dictionaries({"q": st.lists(num, max_size=40), "units": st.sampled_from(["W", "kW", None])})


SUBCHECKS = [
    Sub("split", check_split, splits, quick=2000),
    Sub("units", check_units, cases=wrong_units, shards=1),
    Sub("stats", check_stats, lambda: st.fixed_dictionaries({"load": loads.spec(), "bhe": st.integers(0, len(heat.POOL) - 1), "factor": st.sampled_from([1.0, 1.0, 1.0, 1e-8, 1e-5, 1e4])}), quick=480),
    Sub("year", check_year, lambda: st.fixed_dictionaries({
        "load": loads.spec(), "year": st.sampled_from([2019, 2020, 2021, 2024, 2100, 2000]),
        "extra": st.sampled_from([0, 0, 0, 0, 0, 0, 24, -24, 1, -1, -4000]),
        "both": st.booleans(), "bhe": st.integers(0, len(heat.POOL) - 1)}), quick=240),
]
