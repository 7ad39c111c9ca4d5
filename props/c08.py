"""C08 Peak durations reproduce the fluid temperature rise of the peak days."""
import functools

import numpy as np
from hypothesis import strategies as st

from vf import heat, loads
from vf.core import Sub, Violation
from vf.util import expect

ID = "C08"
RULE = ("whole-year profiles (as for C06, also scaled, with loads changed outside of the peak's two days) on eight single U-tubes and their "
        "short-time-step responses; every month's duration is compared with an independent 48-hour simulation; non-trivial = at "
        "least three months have a duration that is neither negligible nor 48 hours")
ASSUMPTIONS = ["the short-time-step response and the borehole resistance are taken from the heat exchanger (decided by C11 and C13)",
               "durations are compared to 1e-6 relative plus 1e-6 h",
               "where the monthly peak exceeds the average by less than 1e-9 of itself only the bounds are checked",
               "which two days are meant is observed on one demonstration profile: the peak day and the day before it as documented, or "
               "the day after it (the listed known finding)"]


def two_days(hourly, month, day, mode):
    """The 48 loads: the peak day and the next (mode 'after') or the one before it (mode 'before')."""
    s = loads.FIRST[month] + 24 * (day - 1)
    if mode == "before":
        s -= 24
    return [hourly[(s + k) % 8760] for k in range(48)]


def response(step, g, two_pi_k, Rb):
    """Fluid temperature rise at hours 0..48 of the loads of hours 1..48; g[k] is the response after k hours."""
    q = np.concatenate(([0.0], np.asarray(step, dtype=float)))
    dq = np.diff(q)
    out = np.zeros(49)
    for n in range(1, 49):
        out[n] = np.dot(dq[:n], g[n - np.arange(n)]) / two_pi_k + q[n] * Rb
    return out


def g_hours(radial):
    k = np.arange(1, 49)
    g = np.interp(np.log(k * 3600.0 / radial.t_s), radial.lntts, radial.g)
    return np.concatenate(([0.0], g))


def reference(hourly, month, g, two_pi_k, Rb, mode):
    """(kind, duration): kind 'none', 'low' (never above the average), 'bounds' (only bounds hold) or 'exact'."""
    tot, avg, peak, day = loads.stats(hourly)
    return _reference(hourly, month, (avg[month], peak[month], day[month]), g, two_pi_k, Rb, mode)


def _reference(hourly, month, stat, g, two_pi_k, Rb, mode):
    avg, peak, day = stat
    if peak == 0.0:
        return "none", 1e-6
    w = two_days(hourly, month, day, mode)
    p = max(peak, max(w))
    if p - avg <= 1e-9 * p:
        return "bounds", None
    pk = response([p - avg] * 48, g, two_pi_k, Rb)
    nm = response([(x - avg) / p * x for x in w], g, two_pi_k, Rb)
    top = max(nm[1:])
    if abs(top) <= 1e-9 * pk[-1]:
        return "bounds", None
    if top < 0.0:
        return "low", 1e-6
    return "exact", float(np.interp(min(top, pk[-1]), pk, np.arange(49)))


def durations(rej, ext, u, radial):
    import ghedt.peak_load_analysis_tool as plat
    h = plat.ground_loads.HybridLoad(list(rej), list(ext), u, radial, plat.media.SimulationParameters(1, 12, 35.0, 5.0, 150.0, 60.0))
    df = h.create_dataframe_of_peak_analysis()
    return {s: [None] + [float(x) for x in df[("Peak Duration", s)]] for s in ("rejection", "extraction")}


def demonstration():
    """A peak of one hour on 10 January and a long load on the day after it (and none on the day before it)."""
    q = [0.0] * 8760
    q[9 * 24 + 12] = 50.0
    for k in range(10):
        q[10 * 24 + 4 + k] = 45.0
    return q


@functools.lru_cache(maxsize=1)
def mode():
    u, radial = heat.radial(heat.POOL[0])
    q = demonstration()
    try:
        d = durations([0.0] * 8760, q, u, radial)["extraction"][1]
    except Exception:
        return "after", None, None
    g, k, R = g_hours(radial), 2 * np.pi * u.soil.k, u.compute_effective_borehole_resistance()
    for m in ("before", "after"):
        if abs(reference(q, 1, g, k, R, m)[1] - d) < 1e-6:
            return m, d, None
    return "after", d, reference(q, 1, g, k, R, "after")[1]


def check_window(case, lab):
    m, d, wrong = mode()
    lab.nt()
    if d is None:
        durations([0.0] * 8760, demonstration(), *heat.radial(heat.POOL[0]))
    if wrong is not None:
        raise Violation("the duration of a 1 hour peak followed by a 10 hour load on the next day is %r h: neither that of the day before and the "
                        "day of the peak nor that of the day of and the day after the peak (%r h)" % (d, wrong))
    if m == "after":
        lab("window is the peak day and the day after")
        lab.known_finding("KF1")


def check_durations(case, lab):
    q = loads.expand(case["load"])
    u, radial = heat.radial(heat.POOL[case["bhe"]])
    rej, ext = loads.split(q)
    d = durations(rej, ext, u, radial)
    g, k, R = g_hours(radial), 2 * np.pi * u.soil.k, u.compute_effective_borehole_resistance()
    md = mode()[0]
    n = 0
    for side, hourly in (("rejection", rej), ("extraction", ext)):
        tot, avg, peak, day = loads.stats(hourly)
        for m in range(1, 13):
            got = d[side][m]
            what = "%s, month %d (peak %r kW on day %d, average %r kW)" % (side, m, peak[m], day[m], avg[m])
            expect(0.0 < got <= 48.0 + 1e-9, "%s: the duration is %r h", what, got)
            kind, exp = _reference(hourly, m, (avg[m], peak[m], day[m]), g, k, R, md)
            lab("month: " + kind)
            if kind in ("none", "low"):
                expect(got <= 1e-3, "%s: the duration is %r h, expected a negligible one", what, got)
            elif kind == "exact":
                if 1e-3 < exp < 47.9:
                    n += 1
                expect(abs(got - exp) <= 1e-6 + 1e-6 * exp, "%s: the duration is %r h, expected %r h", what, got, exp)
    lab.nt(n >= 3)
    # scaling all loads does not change any duration
    f = case["factor"]
    if f != 1.0:
        lab("scaled")
        d2 = durations([x * f for x in rej], [x * f for x in ext], u, radial)
        for side, hourly in (("rejection", rej), ("extraction", ext)):
            tot, avg, peak, day = loads.stats(hourly)
            for m in range(1, 13):
                if peak[m] > 0 and _reference(hourly, m, (avg[m], peak[m], day[m]), g, k, R, md)[0] != "bounds":
                    expect(abs(d[side][m] - d2[side][m]) <= 1e-6 * (1 + d[side][m]),
                           "%s, month %d: scaling all loads by %r changes the duration from %r to %r h", side, m, f, d[side][m], d2[side][m])


def check_local(case, lab):
    """Changing loads outside of both candidate windows, without changing the month's peak and average, changes no duration."""
    q = loads.expand(case["load"])
    u, radial = heat.radial(heat.POOL[case["bhe"]])
    rej, ext = loads.split(q)
    hourly = list(ext if case["side"] == "extraction" else rej)
    tot, avg, peak, day = loads.stats(hourly)
    blocked = set()
    for m in range(1, 13):
        if day[m]:
            s = loads.FIRST[m] + 24 * (day[m] - 1)
            blocked.update((s + x) % 8760 for x in range(-24, 48))
    other = list(hourly)
    rng = np.random.default_rng(case["seed"])
    for m in range(1, 13):
        idx = [i for i in range(loads.FIRST[m], loads.FIRST[m + 1]) if i not in blocked]
        vals = [other[i] for i in idx]
        rng.shuffle(vals)
        for i, v in zip(idx, vals):
            # a shuffled hour must not become an earlier occurrence of the peak
            other[i] = v
    if loads.stats(other)[3] != day:
        lab("the peak day moved")
        return
    zero = [0.0] * 8760
    a = durations(zero, hourly, u, radial)["extraction"]
    b = durations(zero, other, u, radial)["extraction"]
    moved = other != hourly
    lab.nt(moved)
    for m in range(1, 13):
        if peak[m] - avg[m] > 1e-6 * peak[m]:
            expect(abs(a[m] - b[m]) <= 1e-6, "month %d: shuffling hours away from the peak day changes the duration from %r to %r h", m, a[m], b[m])


def threshold_profile(case, g, two_pi_k, Rb, md):
    """Twelve months whose peak exceeds the average just so much that the fluid rises above its temperature of the average load for a short time."""
    out = []
    for m, (day, hour, w, target) in enumerate(case["months"], start=1):
        n = loads.FIRST[m + 1] - loads.FIRST[m]
        s = 24 * (day - 1)
        low = [k for k in range(s - 24, s + 48) if 0 <= k < n]
        peak = s + hour

        def month(p):
            q = [0.0] * n
            for k in low:
                q[k] = w * case["average"]
            q[peak] = p
            rest = (case["average"] * n - sum(q)) / (n - len(low))
            inside = set(low)
            return [q[k] if k in inside else rest for k in range(n)]

        def duration(p):
            year = [w * case["average"]] * 8760
            year[loads.FIRST[m]:loads.FIRST[m + 1]] = month(p)
            h = month(p)
            return _reference(year, m, (sum(h) / n, p, day), g, two_pi_k, Rb, md)[1] or 0.0

        lo, hi = case["average"] * 1.0001, case["average"] * 4.0
        for _ in range(30):
            mid = 0.5 * (lo + hi)
            lo, hi = (mid, hi) if duration(mid) < target else (lo, mid)
        out += month(hi)
    return out


def check_threshold(case, lab):
    """Short durations: the peak hardly lifts the fluid above its temperature under the average load."""
    u, radial = heat.radial(heat.POOL[case["bhe"]])
    g, k, R = g_hours(radial), 2 * np.pi * u.soil.k, u.compute_effective_borehole_resistance()
    md = mode()[0]
    hourly = threshold_profile(case, g, k, R, md)
    tot, avg, peak, day = loads.stats(hourly)
    zero = [0.0] * 8760
    rej = case["side"] == "rejection"
    d = durations(hourly if rej else zero, zero if rej else hourly, u, radial)[case["side"]]
    n = 0
    for m in range(1, 13):
        kind, exp = _reference(hourly, m, (avg[m], peak[m], day[m]), g, k, R, md)
        if kind != "exact":
            continue
        if exp < 0.2:
            n += 1
            lab("month: rises for a short time")
        what = "%s, month %d (peak %r kW on day %d, average %r kW)" % (case["side"], m, peak[m], day[m], avg[m])
        expect(abs(d[m] - exp) <= 1e-6 + 1e-6 * exp, "%s: the duration is %r h, expected %r h", what, d[m], exp)
    lab.nt(n >= 3)


def thresholds():
    month = st.tuples(st.integers(1, 28), st.integers(0, 23), st.sampled_from([0.0, 0.2, 0.5, 0.8]), st.sampled_from([0.003, 0.02, 0.1, 0.5, 2.0])).map(list)
    return st.fixed_dictionaries({"months": st.lists(month, min_size=12, max_size=12), "average": st.sampled_from([10.0, 137.5, 0.8]),
                                  "bhe": st.integers(0, len(heat.POOL) - 1), "side": st.sampled_from(["extraction", "rejection"])})


def cases():
    return st.fixed_dictionaries({"load": loads.spec(), "bhe": st.integers(0, len(heat.POOL) - 1),
                                  "factor": st.sampled_from([1.0, 1.0, 2.0, 1e-3, 0.37, 1e3])})


def local():
    return st.fixed_dictionaries({"load": loads.spec(), "bhe": st.integers(0, len(heat.POOL) - 1),
                                  "side": st.sampled_from(["extraction", "rejection"]), "seed": st.integers(0, 9999)})


SUBCHECKS = [
    Sub("window", check_window, cases=lambda tier: [{"demonstration": 1}], shards=1),
    Sub("durations", check_durations, cases, quick=480),
    Sub("threshold", check_threshold, thresholds, quick=48),
    Sub("local", check_local, local, quick=80),
]
