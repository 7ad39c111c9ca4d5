"""Compact specifications of hourly ground-load profiles (W, extraction positive) and their expansion."""
from calendar import monthrange

import numpy as np
from hypothesis import strategies as st

DAYS = [0] + [monthrange(2019, i)[1] for i in range(1, 13)]
FIRST = [0, 0]                      # FIRST[m]: hours before month m (1..12), FIRST[13] = 8760
for _m in range(1, 13):
    FIRST.append(FIRST[-1] + 24 * DAYS[_m])


def days(year):
    return [0] + [monthrange(year, i)[1] for i in range(1, 13)]


def first_hours(year):
    d = days(year)
    out = [0, 0]
    for m in range(1, 13):
        out.append(out[-1] + 24 * d[m])
    return out


def expand(spec, hours=8760):
    """The profile as a list of floats."""
    t = np.arange(hours)
    q = np.full(hours, float(spec.get("base", 0.0)))
    if spec.get("annual"):
        a, p = spec["annual"]
        q = q + a * np.cos(2 * np.pi * (t / 8760.0 + p))
    if spec.get("daily"):
        a, p = spec["daily"]
        q = q + a * np.cos(2 * np.pi * (t / 24.0 + p))
    if spec.get("noise"):
        a, seed = spec["noise"]
        q = q + a * np.random.default_rng(seed).standard_normal(hours)
    if spec.get("clip") == "extraction":
        q = np.maximum(q, 0.0)
    elif spec.get("clip") == "rejection":
        q = np.minimum(q, 0.0)
    for m in spec.get("off", ()):
        f = FIRST if hours == 8760 else first_hours(2020)
        q[f[m]:f[m + 1]] = 0.0
    for h, d, v in spec.get("events", ()):
        q[h:h + d] = v
    return q.tolist()


def magnitude(lo=2.0, hi=5.3):
    return st.builds(lambda e, m: round(m * 10.0 ** e, 3), st.sampled_from([x for x in (1.0, 2.0, 3.0, 4.0, 5.0) if lo <= x <= hi]),
                     st.sampled_from([1.0, 1.5, 2.0, 3.7, 0.83, 5.0]))


@st.composite
def event(draw, hi=5.3):
    m = draw(st.integers(1, 12))
    day = draw(st.one_of(st.integers(1, DAYS[m]), st.sampled_from([1, 2, DAYS[m] - 1, DAYS[m]])))
    hour = draw(st.sampled_from([0, 1, 8, 12, 13, 20, 23]))
    dur = draw(st.sampled_from([1, 1, 2, 3, 6, 10, 24, 40, 48, 72, 200]))
    v = draw(st.sampled_from([-1.0, 1.0])) * draw(magnitude(2, hi))
    return [FIRST[m] + 24 * (day - 1) + hour, dur, v]


@st.composite
def near_events(draw, hi=5.3):
    """Events of both signs on the same or neighbouring days."""
    e = draw(event(hi))
    out = [e]
    for _ in range(draw(st.integers(1, 3))):
        shift = draw(st.sampled_from([-48, -24, -12, -6, 0, 6, 12, 24, 48, 30]))
        h = e[0] + e[1] * draw(st.sampled_from([0, 1])) + shift
        if 0 <= h < 8760:
            out.append([h, draw(st.sampled_from([1, 2, 5, 12, 24, 48])), e[2] * draw(st.sampled_from([-1.0, -0.9, 0.9, 0.5, 1.0, -2.0]))])
    return out


@st.composite
def spec(draw, hi=5.3):
    """hi bounds the magnitude (log10 of W)."""
    s = {}
    kind = draw(st.sampled_from(["season", "season", "mixed", "events", "const", "noise"]))
    mag = lambda: draw(magnitude(2, hi))   # noqa: E731
    phase = st.sampled_from([0.0, 0.5, 0.1, 0.03, 0.77])
    if kind in ("season", "mixed"):
        s["base"] = draw(st.sampled_from([0.0, 1.0, -1.0])) * mag()
        s["annual"] = [mag(), draw(phase)]
        s["daily"] = [mag(), draw(phase)]
        if draw(st.booleans()):
            s["noise"] = [0.1 * mag(), draw(st.integers(0, 999))]
    elif kind == "const":
        s["base"] = draw(st.sampled_from([1.0, -1.0, 0.0])) * mag()
    elif kind == "noise":
        s["base"] = draw(st.sampled_from([0.0, 0.0, 1.0, -1.0])) * mag()
        s["noise"] = [mag(), draw(st.integers(0, 999))]
    s["clip"] = draw(st.sampled_from([None, None, None, "extraction", "rejection"]))
    if draw(st.integers(0, 2)) == 0:
        s["off"] = sorted(draw(st.sets(st.integers(1, 12), max_size=10)))
    if kind in ("events", "mixed") or draw(st.integers(0, 3)) == 0:
        ev = []
        for _ in range(draw(st.integers(1, 5))):
            ev += draw(st.one_of(st.builds(lambda e: [e], event(hi)), near_events(hi)))
        s["events"] = ev
    return s


def split(q):
    """Reference split: (rejection, extraction) in kW."""
    return [max(-x, 0.0) / 1000.0 for x in q], [max(x, 0.0) / 1000.0 for x in q]


def stats(hourly, year=2019):
    """Reference monthly statistics of a non-negative profile: lists indexed by month (0 unused)."""
    import math
    f = first_hours(year)
    tot, avg, peak, day = [0.0], [0.0], [0.0], [0]
    for m in range(1, 13):
        h = hourly[f[m]:f[m + 1]]
        tot.append(math.fsum(h))
        avg.append(tot[-1] / len(h))
        k = max(range(len(h)), key=lambda i: (h[i], -i))
        peak.append(h[k])
        day.append(k // 24 + 1 if h[k] > 0.0 else 0)
    return tot, avg, peak, day
