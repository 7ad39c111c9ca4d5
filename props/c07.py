"""C07 Hybrid load sequence conserves monthly energy, covers the horizon in order."""
import numpy as np
from hypothesis import strategies as st

from vf import heat, loads
from vf.core import Sub
from vf.util import expect, expect_close

ID = "C07"
RULE = ("whole-year profiles (as for C06, with peaks of both signs on the same, neighbouring, first and last days and long events) with "
        "horizons of 1 to 40 months (and up to 30 years) starting in any month of the year; ordering, boundaries, energy, peaks and common rate are "
        "recomputed from the reported monthly statistics (also for 366 day profiles, in 365 day years); non-trivial = some month has both peaks on different days, or the horizon has "
        "months without peaks")
ASSUMPTIONS = ["the monthly statistics and durations are those reported (decided by C06 and C08)",
               "energies are compared to 1e-6 of the month's gross energy, durations to 1e-7 h, ends of months to 1e-8 h",
               "'centred on the peak day' allows 1 hour around noon, and is required when the two peaks placed there with an hour to spare "
               "neither overlap nor leave the month"]
EDGE = 1e-8      # hours
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def month_start(i):
    """Hours from the start of the first January to the start of month i (1, 2, ... 13, ...)."""
    y, m = divmod(i - 1, 12)
    return 8760 * y + loads.FIRST[m + 1]


def check(case, lab):
    import ghedt.peak_load_analysis_tool as plat
    q = [x * case["factor"] for x in loads.expand(case["load"], loads.first_hours(case["year"])[13])]
    u, radial = heat.radial(heat.POOL[case["bhe"]])
    s, e = case["start"], case["start"] + case["months"] - 1
    rej, ext = loads.split(q)
    kw = dict({} if case["year"] == 2019 else {"year": case["year"]}, **case["cop"])
    if case["year"] == 2020:
        lab("leap year")
    h = plat.ground_loads.HybridLoad(rej, ext, u, radial, plat.media.SimulationParameters(s, e, 35.0, 5.0, 150.0, 60.0), **kw)
    df = h.create_dataframe_of_peak_analysis()

    def get(f, side, m):
        return float(df[(f, side)][MONTHS[m - 1]])

    hour = np.asarray(h.hour, dtype=float)
    load = np.asarray(h.load, dtype=float)
    sf = np.asarray(h.sfload, dtype=float)
    expect(hour.shape == load.shape and hour.ndim == 1 and hour.size >= 3, "the sequence has %s hours and %s loads", hour.shape, load.shape)
    expect(bool(np.all(np.isfinite(hour)) and np.all(np.isfinite(load))), "the sequence is not finite")
    first, last = month_start(s), month_start(e + 1)
    expect(abs(hour[1] - first) <= EDGE and load[1] == 0.0 and load[0] == 0.0, "the sequence starts at hour %r with load %r, expected hour %r without load", hour[1], load[1], first)
    hr, ld = hour[1:], load[2:]
    d = np.diff(hr)
    if not np.all(d > 0):
        k = int(np.argmin(d))
        expect(False, "period %d ends at hour %r, the one before it at %r", k + 1, hr[k + 1], hr[k])
    expect(abs(hr[-1] - last) <= EDGE, "the sequence ends at hour %r, expected %r", hr[-1], last)
    # the step loads accumulate to the loads
    expect(sf.shape == load.shape, "there are %s step loads for %s loads", sf.shape, load.shape)
    top = max(1e-12, float(np.max(np.abs(load))))
    expect(float(np.max(np.abs(np.cumsum(sf) - load))) <= 1e-9 * top * len(load), "the step loads do not accumulate to the loads")

    def pos(x):
        """Index of the period that ends at hour x (which a shifted peak may miss by rounding)."""
        i = int(np.argmin(np.abs(hr - x)))
        return i if abs(hr[i] - x) <= EDGE else None

    both = plain = False
    for i in range(s, e + 1):
        m = (i - 1) % 12 + 1
        a, b = month_start(i), month_start(i + 1)
        what = "month %d (%s; horizon %d..%d)" % (i, MONTHS[m - 1], s, e)
        ia, ib = pos(a), pos(b)
        expect(ia is not None and ib is not None, "%s: no period ends at its end (hours %r to %r)", what, a, b)
        length = d[ia:ib]
        vals = ld[ia:ib]
        tr, te = get("Total", "rejection", m), get("Total", "extraction", m)
        pk = {"rejection": get("Peak", "rejection", m), "extraction": -get("Peak", "extraction", m)}
        dur = {x: get("Peak Duration", x, m) for x in pk}
        day = {x: get("Peak Day", x, m) for x in pk}
        gross = tr + te + sum(abs(pk[x]) * dur[x] for x in pk)
        energy = float(np.dot(length, vals))
        expect(abs(energy - (tr - te)) <= 1e-6 * gross + 1e-12, "%s: the loads integrate to %r kWh, expected %r", what, energy, tr - te)
        include = i < s + 12 or i > e - 12
        want = [x for x in ("rejection", "extraction") if pk[x] != 0.0]
        if not include:
            plain = True
            lab("month without peaks between the first and the last year")
        if not include or (len(want) == 2 and day["rejection"] == day["extraction"]):
            if include:
                lab("both peaks on one day")
            want = []
        if len(want) == 2:
            both = True
        # choose the periods that are the peaks; all others must have one common rate
        cand = {x: [k for k in range(len(vals)) if abs(vals[k] - pk[x]) <= 1e-12 * abs(pk[x]) and abs(length[k] - dur[x]) <= 1e-7] for x in want}
        for x in want:
            expect(cand[x], "%s: the %s peak of %r kW for %r h on day %d does not appear (loads %s for %s h)", what, x, abs(pk[x]), dur[x],
                   day[x], vals.tolist(), length.tolist())
        chosen = None
        options = [()]
        for x in want:
            options = [o + (k,) for o in options for k in cand[x] if k not in o]
        for o in options:
            rest = [v for k, v in enumerate(vals) if k not in o]
            if not rest or max(rest) - min(rest) <= 1e-9 * max(abs(v) for v in rest) + 1e-12:
                chosen = o
                break
        expect(chosen is not None, "%s: apart from its peaks the loads are not at one rate: %s for %s h", what, vals.tolist(), length.tolist())
        if not want:
            expect(len(set(vals.tolist())) == 1, "%s has no peaks but the loads %s", what, vals.tolist())
            continue
        noon = {x: a + (day[x] - 1) * 24 + 12.0 for x in want}
        order = sorted(want, key=lambda x: noon[x])
        room = all(noon[x] - dur[x] / 2 >= a + 1 and noon[x] + dur[x] / 2 + 1 <= b - 1 for x in want)
        if len(order) == 2:
            room = room and noon[order[0]] + dur[order[0]] / 2 + 2 <= noon[order[1]] - dur[order[1]] / 2
        lab("room for the peaks" if room else "peaks are shifted")
        if room:
            for x, k in zip(want, chosen):
                c = hr[ia + k] + length[k] / 2
                # with equal candidates another period may be the peak
                ok = any(abs(hr[ia + kk] + length[kk] / 2 - noon[x]) <= 1.0 + 1e-6 for kk in cand[x])
                expect(ok, "%s: the %s peak on day %d is centred at hour %r of the month, expected about %r", what, x, day[x], c - a, noon[x] - a)
    lab("several years" if e - s >= 24 else "up to two years")
    if s > 1:
        lab("starts after January")
    lab.nt(both or plain)


def cases():
    return st.fixed_dictionaries({"load": loads.spec(), "bhe": st.integers(0, len(heat.POOL) - 1),
                                  "year": st.sampled_from([2019] * 6 + [2020, 2021]), "factor": st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e-8]),
                                  "cop": st.sampled_from([{}, {}, {}, {"COP_rejection": 3.2, "COP_extraction": 1.9}]),      # the loads are those of the ground
                                  "start": st.one_of(st.just(1), st.integers(1, 12)),
                                  "months": st.one_of(st.integers(1, 40), st.sampled_from([12, 13, 23, 24, 25, 36, 60, 120, 240, 360, 480]))})


SUBCHECKS = [Sub("sequence", check, cases, quick=700)]
