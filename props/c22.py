"""C22 Hourly representations place the monthly averages and peaks on their days."""
import math

from hypothesis import strategies as st

from props.c06 import MONTHS
from vf import heat, loads
from vf.core import Sub
from vf.util import close, expect, expect_close, expect_raises

ID = "C22"
RULE = ("hourly representations of whole-year profiles (as for C06) on eight single U-tubes; the synthetic doubling profile for units and years, "
        "alone and read back through the monthly statistics, and single months with arbitrary average, peak, duration and day; non-trivial = some "
        "month has a peak of at least two hours that differs from the average")
ASSUMPTIONS = ["the monthly statistics and durations are those reported (decided by C06 and C08)",
               "the peak is centred on noon of its day with an odd hour before noon, exactly, whenever that lies within the month"]


def place(avg, peak, dur, noon, lo, hi, got, what):
    """got[lo:hi] must be avg apart from dur consecutive hours of peak centred on noon."""
    start = math.floor(noon - dur / 2.0)
    room = lo <= start and start + dur <= hi
    if room:
        for i in range(lo, hi):
            exp = peak if start <= i < start + dur else avg
            expect(close(got[i], exp, 1e-12, 0.0), "%s: hour %d of the month is %r, expected %r (average %r, peak %r for %d h from hour %d)",
                   what, i - lo, got[i], exp, avg, peak, dur, start - lo)
        return True
    at = [i for i in range(lo, hi) if not close(got[i], avg, 1e-12, 0.0)]
    if close(avg, peak, 1e-12, 0.0) or dur == 0:
        expect(not at, "%s: hour %s differs from the average", what, at[:1])
        return False
    expect(len(at) == dur and at[-1] - at[0] == dur - 1, "%s: the peak of %d h is in the hours %s of the month", what, dur,
           [i - lo for i in at[:3] + at[-1:]])
    for i in at:
        expect(close(got[i], peak, 1e-12, 0.0), "%s: hour %d of the month is %r, expected the peak %r", what, i - lo, got[i], peak)
    return False


def check_representation(case, lab):
    import ghedt.peak_load_analysis_tool as plat
    first = loads.first_hours(case["year"])
    q = loads.expand(case["load"], first[13])
    u, radial = heat.radial(heat.POOL[case["bhe"]])
    rej, ext = loads.split(q)
    kw = {} if case["year"] == 2019 else {"year": case["year"]}
    h = plat.ground_loads.HybridLoad(rej, ext, u, radial, plat.media.SimulationParameters(1, 12, 35.0, 5.0, 150.0, 60.0), **kw)
    df = h.create_dataframe_of_peak_analysis()
    r, e = h.hourly_load_representation(**kw)
    lab("year of %d hours" % first[13])
    long = False
    for side, got in (("rejection", r), ("extraction", e)):
        expect(len(got) == first[13], "the %s representation of %d has %d hours", side, case["year"], len(got))
        for m in range(1, 13):
            g = lambda f: float(df[(f, side)][MONTHS[m - 1]])   # noqa: E731
            dur = int(round(g("Peak Duration")))
            what = "%s, %s (day %d)" % (side, MONTHS[m - 1], g("Peak Day"))
            noon = first[m] + (g("Peak Day") - 1) * 24 + 12
            if abs(g("Peak Duration") % 1.0 - 0.5) < 1e-6:
                continue
            room = place(g("Average"), g("Peak"), dur, noon, first[m], first[m + 1], got, what)
            if dur >= 2 and g("Peak") > 1.001 * g("Average"):
                long = True
                lab("peak in place" if room else "peak shifted into the month")
            if g("Peak Day") == 0:
                lab("month without load")
    lab.nt(long)


def check_month(case, lab):
    from ghedt.peak_load_analysis_tool import ground_loads as gl
    before, n = case["before"], 24 * case["days"]
    day = min(case["day"], case["days"] - 1)
    total = [7.25] * (before + n + 30)
    lab.nt(case["duration"] >= 2)
    gl.synthetic_load_function(total, case["avg"], case["peak"], case["duration"], day, before, n)
    expect(len(total) == before + n + 30, "the profile has %d hours instead of %d", len(total), before + n + 30)
    expect(all(x == 7.25 for x in total[:before] + total[before + n:]), "hours of other months are changed")
    room = place(case["avg"], case["peak"], case["duration"], before + 24 * day + 12, before, before + n, total, "month of %d days, day %d" % (case["days"], day))
    lab("in place" if room else "shifted")


def check_synthetic(case, lab):
    import ghedt.peak_load_analysis_tool as plat
    gl = plat.ground_loads
    units, year = case["units"], case["year"]
    lab.nt()
    lab("unit " + units)
    if units not in ("W", "kW"):
        expect_raises(ValueError, lambda: gl.create_synthetic_doubling_load_profile(units=units), "unit %r" % units)
        return
    rej, ext = gl.create_synthetic_doubling_load_profile(units=units, year=year)
    scale = 1000.0 if units == "W" else 1.0
    f = loads.first_hours(year)
    expect(len(rej) == f[13] and len(ext) == f[13], "the profile of %d has %d and %d hours", year, len(rej), len(ext))
    # the peak day of the extraction is 8 January, one later each month; that of rejection is 20 January, one earlier
    for m in range(1, 13):
        place(m * scale, 2 * m * scale, m, f[m] + (7 + m - 1) * 24 + 12, f[m], f[m + 1], ext, "extraction, month %d" % m)
        k = 13 - m
        place(k * scale, 2 * k * scale, k, f[m] + (19 - m + 1) * 24 + 12, f[m], f[m + 1], rej, "rejection, month %d" % m)
    if f[13] != 8760:
        return
    # and through the monthly statistics
    u, radial = heat.radial(heat.POOL[case["bhe"]])
    h = gl.HybridLoad([x / scale for x in rej], [x / scale for x in ext], u, radial, plat.media.SimulationParameters(1, 12, 35.0, 5.0, 150.0, 60.0))
    df = h.create_dataframe_of_peak_analysis()
    for m in range(1, 13):
        for side, k, day in (("extraction", m, 7 + m), ("rejection", 13 - m, 21 - m)):
            g = lambda x: float(df[(x, side)][MONTHS[m - 1]])   # noqa: E731
            w = "%s, month %d: " % (side, m)
            expect_close(g("Peak"), 2.0 * k, w + "peak")
            expect(g("Peak Day") == day, "%speak day %r, expected %d", w, g("Peak Day"), day)
            n = f[m + 1] - f[m]
            expect_close(g("Average"), (k * (n - k) + 2.0 * k * k) / n, w + "average")


def all_units(tier):
    for u in ("W", "kW", "MW", "w"):
        for y in (2019, 2020, 2021, 2023, 2024, 2100):
            for b in range(2 if tier == "quick" else len(heat.POOL)):
                yield {"units": u, "year": y, "bhe": b}


def months():
    return st.fixed_dictionaries({"before": st.sampled_from([0, 744, 1416, 5]), "days": st.sampled_from([28, 29, 30, 31]),
                                  "day": st.one_of(st.integers(0, 30), st.sampled_from([0, 1, 29, 30])), "duration": st.integers(0, 48),
                                  "avg": st.floats(-100, 100), "peak": st.floats(-200, 300)})


SUBCHECKS = [
    Sub("synthetic", check_synthetic, cases=all_units, shards=4),
    Sub("month", check_month, months, quick=800, shards=4),
    Sub("representation", check_representation,
        lambda: st.fixed_dictionaries({"load": loads.spec(), "year": st.sampled_from([2019, 2019, 2019, 2020, 2023]), "bhe": st.integers(0, len(heat.POOL) - 1)}), quick=400),
]
