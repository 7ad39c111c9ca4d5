"""C23 Plots show exactly the data of their objects."""
import copy
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from props import c08
from vf import heat, loads
from vf.core import Sub
from vf.util import close, expect, match_points

ID = "C23"
RULE = ("random fields, polygons, domains and g-function sets; whole-year profiles (as for C06) on eight single U-tubes with every month and "
        "choice of sides; symmetric-log axes; what each figure holds is read back from the figure; non-trivial = at least two "
        "points, curves, fields or loads of both signs are drawn")
ASSUMPTIONS = ["a figure is judged by the lines, markers, texts and labels it holds, not by its styling or pixels",
               "the two days that a month's fluid temperatures describe are those observed by C08 (its known finding)",
               "minor ticks are checked between the extreme major ticks of views that show at least one decade"]


def figure_of(res):
    import matplotlib.figure
    if isinstance(res, tuple):
        return res
    expect(isinstance(res, matplotlib.figure.Figure), "a plot returns %r", type(res).__name__)
    return res, res.axes[0]


class closing:
    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg")
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        plt.close("all")


def series(ax):
    """[(label, connected, [(x, y), ...]), ...] of everything drawn in data coordinates."""
    out = []
    for ln in ax.lines:
        xy = [(float(x), float(y)) for x, y in zip(np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float))]
        joined = str(ln.get_linestyle()) not in ("None", " ", "", "none")
        out.append((ln.get_label(), joined, xy))
    for c in ax.collections:
        if hasattr(c, "get_offsets"):
            out.append((c.get_label(), False, [(float(x), float(y)) for x, y in np.asarray(c.get_offsets(), dtype=float)]))
    return out


def same(a, b, tol=1e-9):
    return len(a) == len(b) and all(close(p[0], q[0], tol, tol) and close(p[1], q[1], tol, tol) for p, q in zip(a, b))


def points_match(ax, coords, what):
    got = [p for _, joined, xy in series(ax) if not joined for p in xy]
    m = match_points(got, coords, 1e-9 * max([1.0] + [abs(v) for p in coords for v in p]))
    expect(m is None, "%s: %s", what, m)


def outline(poly):
    return [tuple(map(float, p)) for p in poly] + [tuple(map(float, poly[0]))]


def check_fields(case, lab):
    import ghedt as dt
    coords = [tuple(p) if case["tuples"] else list(p) for p in case["xy"]]
    kind = case["kind"]
    lab(kind)
    lab.nt(len(coords) > 1)
    keep = copy.deepcopy(coords)
    with closing():
        if kind == "coordinates":
            fig, ax = figure_of(dt.coordinates.visualize_coordinates(coords))
            points_match(ax, case["xy"], "plotted coordinates")
        elif kind == "borefield":
            own = [tuple(p) for p in case["other"]]
            g = dt.gfunction.GFunction(B=5.0, r_b_values={100.0: 0.075}, D_values={100.0: 2.0}, g_lts={100.0: [1.0, 2.0]}, log_time=[-8.0, 0.0],
                                       bore_locations=own)
            fig, ax = figure_of(g.visualize_borefield())
            points_match(ax, own, "plotted bore field of a g-function")
            fig, ax = figure_of(g.visualize_borefield(coords))
            points_match(ax, case["xy"], "plotted given bore field")
            fig, ax = figure_of(g.visualize_borefield(bore_locations=coords))
            points_match(ax, case["xy"], "plotted given bore field")
            expect([tuple(p) for p in g.bore_locations] == own, "plotting changes the bore locations")
        else:
            per, no_go = copy.deepcopy(case["perimeter"]), copy.deepcopy(case["no_go"])
            if not case["points"]:
                coords, keep = [], []
            kw = {} if no_go is None else {"no_go": no_go}
            fig, ax = figure_of(dt.gfunction.GFunction.visualize_area_and_constraints(per, coords, **kw))
            points_match(ax, case["xy"] if case["points"] else [], "plotted boreholes on the land")
            lines = [xy for _, joined, xy in series(ax) if joined]
            exp = ([outline(per)] if per else []) + ([outline(no_go)] if no_go is not None else [])
            expect(len(lines) == len(exp) and all(any(same(xy, e) for xy in lines) for e in exp),
                   "the outlines drawn are %s, expected the closed polygons %s", lines, exp)
            expect(per == case["perimeter"] and no_go == case["no_go"], "plotting changes the outlines")
        expect(ax.get_xlabel() == "x (m)" and ax.get_ylabel() == "y (m)", "the axes are labelled %r, %r", ax.get_xlabel(), ax.get_ylabel())
        expect(ax.get_aspect() in ("equal", 1.0), "the field is drawn with unequal scales")
    expect(coords == keep, "plotting changes the coordinates")


def check_domain(case, lab):
    import matplotlib.figure
    from ghedt import domains
    fields = [[tuple(p) for p in f] for f in case["fields"]]
    keep = copy.deepcopy(fields)
    lab.nt(len(fields) > 1)
    tmp = tempfile.mkdtemp(prefix="c23_")
    out = os.path.join(tmp, *case["folder"])
    seen = []
    real = matplotlib.figure.Figure.savefig

    def savefig(self, fname, *a, **k):
        # what is saved is recorded; the file itself is written in a low resolution
        seen.append((str(fname), [p for _, _, xy in series(self.axes[0]) for p in xy]))
        k["dpi"] = 10
        return real(self, fname, *a, **k)

    try:
        if case["exists"]:
            os.makedirs(out)
        matplotlib.figure.Figure.savefig = savefig
        with closing():
            import matplotlib.pyplot as plt
            before = len(plt.get_fignums())
            domains.visualize_domain(fields, out)
            expect(len(plt.get_fignums()) == before, "%d figures stay open", len(plt.get_fignums()) - before)
        names = sorted(os.listdir(out))
        expect(names == ["%03d.png" % i for i in range(len(fields))], "%d fields are written as %s", len(fields), names)
        where = {os.path.splitext(os.path.basename(n))[0]: xy for n, xy in seen}
        for i, f in enumerate(fields):
            m = match_points(where["%03d" % i], f, 1e-9 * 1e3)
            expect(m is None, "the plot %03d of the domain: %s", i, m)
        expect([n for n in os.listdir(tmp) if n != case["folder"][0]] == [], "files are written beside the folder")
    finally:
        matplotlib.figure.Figure.savefig = real
        shutil.rmtree(tmp)
    expect(fields == keep, "plotting changes the domain")


def check_gfunctions(case, lab):
    import ghedt as dt
    hs, t, B = case["heights"], case["t"], case["B"]
    curves = [[case["scale"][k] * (1.0 + 0.3 * x + k) for x in range(len(t))] for k in range(len(hs))]
    g_lts = {h: list(c) for h, c in zip(hs, curves)}
    g = dt.gfunction.GFunction(B=B, r_b_values={h: 0.075 for h in hs}, D_values={h: 2.0 for h in hs}, g_lts=copy.deepcopy(g_lts),
                               log_time=list(t), bore_locations=[(0.0, 0.0), (B, 0.0)])
    lab.nt(len(hs) > 1)
    with closing():
        fig, ax = figure_of(g.visualize_g_functions())
        lines = [(lb, xy) for lb, joined, xy in series(ax) if joined]
        expect(len(lines) == len(hs), "%d curves are drawn for %d heights", len(lines), len(hs))
        ends = []
        for h, c in g_lts.items():
            lb = "%d/%d" % (int(B), int(h))
            expect(any(n == lb and same(xy, list(zip(t, c))) for n, xy in lines), "no curve labelled %r is the g-function of %r m: %s", lb, h,
                   [n for n, _ in lines])
            ends.append((str(round(B / h, 4)), c[-1]))
        texts = [(a.get_text(), getattr(a, "xy", a.get_position())) for a in ax.texts]
        for txt, y in ends:
            expect(any(s == txt and abs(p[1] - y) <= 6.0 and abs(p[0] - t[-1]) <= 1.0 for s, p in texts),
                   "no text %r (B/H) at the end of its curve (%r, %r): %s", txt, t[-1], y, texts)
        legend = [x.get_text() for lg in fig.legends + [ax.get_legend()] if lg is not None for x in lg.get_texts()]
        expect(sorted(legend) == sorted(n for n, _ in lines), "the legend shows %s", legend)
    expect(g.g_lts == g_lts and list(g.log_time) == list(t), "plotting changes the g-functions")


def check_loads(case, lab):
    import ghedt.peak_load_analysis_tool as plat
    q = loads.expand(case["load"])
    u, radial = heat.radial(heat.POOL[case["bhe"]])
    rej, ext = loads.split(q)
    h = plat.ground_loads.HybridLoad(list(rej), list(ext), u, radial, plat.media.SimulationParameters(1, 12, 35.0, 5.0, 150.0, 60.0))
    df = h.create_dataframe_of_peak_analysis()
    sfload, hour = np.array(h.load), np.array(h.hour)
    lab.nt(any(rej) and any(ext))
    with closing():
        fig, ax = figure_of(h.visualize_hourly_heat_extraction())
        drawn = {lb: xy for lb, _, xy in series(ax) if xy}
        for word, other, exp in (("extraction", "rejection", [(i, x) for i, x in enumerate(ext) if x]), ("rejection", "extraction", [(i, -x) for i, x in enumerate(rej) if x])):
            got = [xy for lb, xy in drawn.items() if ("ground heat " + word) in lb]
            expect(len(got) == (1 if exp else 0), "%d hours of %s are drawn as %d series", len(exp), word, len(got))
            if exp:
                expect(same(sorted(got[0]), exp, 1e-12), "the heat %s drawn is not that of the loads (%d points, expected %d; first %s, expected %s)", word,
                       len(got[0]), len(exp), sorted(got[0])[:1], exp[:1])
        expect(sum(len(xy) for xy in drawn.values()) == sum(1 for x in q if x != 0.0), "the loads are drawn with %d points",
               sum(len(xy) for xy in drawn.values()))
        legend = [x.get_text() for lg in fig.legends + [ax.get_legend()] if lg is not None for x in lg.get_texts()]
        expect(sorted(legend) == sorted(drawn), "the legend of the loads shows %s", legend)

    g, k, R = c08.g_hours(radial), 2 * np.pi * u.soil.k, u.compute_effective_borehole_resistance()
    md = c08.mode()[0]
    for m, use_ext, use_rej in case["months"]:
        with closing():
            kw = {}
            if not (use_ext and use_rej):
                kw = {"extraction": use_ext, "rejection": use_rej}
            fig, ax = figure_of(h.visualize_fluid_simulation_results(m, **kw))
            drawn = series(ax)
            named = {lb: xy for lb, _, xy in drawn if not lb.startswith("_")}
            other = [p for lb, _, xy in drawn if lb.startswith("_") for p in xy]
            names = (["Extraction", "Peak Extraction"] if use_ext else []) + (["Peak Rejection", "Rejection"] if use_rej else [])
            expect(sorted(named) == sorted(names), "month %d is drawn as %s", m, sorted(named))
            marks = []
            for word, hourly, use in (("Extraction", ext, use_ext), ("Rejection", rej, use_rej)):
                if not use:
                    continue
                tot, avg, peak, day = loads.stats(hourly)
                if peak[m] == 0.0:
                    pk = nm = np.zeros(49)
                else:
                    w = c08.two_days(hourly, m, day[m], md)
                    p = max(peak[m], max(w))
                    pk = c08.response([p - avg[m]] * 48, g, k, R)
                    nm = c08.response([(x - avg[m]) / p * x for x in w], g, k, R)
                tol = 1e-7 * max(1e-12, float(np.max(np.abs(pk))), float(np.max(np.abs(nm))), peak[m] * R)
                for lb, exp in (("Peak " + word, pk), (word, nm)):
                    xy = named[lb]
                    expect(len(xy) == 49 and all(a[0] == i and abs(a[1] - e) <= tol for i, (a, e) in enumerate(zip(xy, exp))),
                           "month %d: the curve %r (%s ...) is not that of its loads (%s ...)", m, lb, [round(a[1], 6) for a in xy[1:4]],
                           [round(float(e), 6) for e in exp[1:4]])
                dur = float(df[("Peak Duration", word.lower())].iloc[m - 1])
                marks.append((dur, float(np.max(nm)), tol))
                ticks = [float(x) for x in ax.get_xticks()]
                expect(any(abs(x - round(dur, 1)) < 1e-9 for x in ticks), "month %d: no tick at the peak duration %r h: %s", m, dur, ticks)
            for dur, top, tol in marks:
                expect(any(abs(x - dur) <= 1e-6 * (1 + dur) and abs(y - top) <= tol for x, y in other), "month %d: the peak duration (%r h, %r) is not "
                       "marked: %s", m, dur, top, other)
            for x, y in other:
                expect(any(abs(y - top) <= tol for _, top, tol in marks), "month %d: a mark at %r", m, (x, y))
    expect(h.rejection.hourly == rej and h.extraction.hourly == ext and np.array_equal(h.load, sfload) and np.array_equal(h.hour, hour) and
           h.create_dataframe_of_peak_analysis().equals(df), "plotting changes the loads")


def check_ticks(case, lab):
    import matplotlib.pyplot as plt
    from ghedt.utilities import MinorSymLogLocator
    lt, n, m = 10.0 ** case["thresh"], case["neg"], case["pos"]
    lo = -lt * 10.0 ** n if n >= 0 else 0.0
    hi = lt * 10.0 ** m if m >= 0 else 0.0
    with closing():
        fig, ax = plt.subplots()
        axis, setter, lim = ((ax.yaxis, ax.set_yscale, ax.set_ylim), (ax.xaxis, ax.set_xscale, ax.set_xlim))[case["axis"]]
        setter("symlog", linthresh=lt)
        lim(lo, hi)
        k = case["nints"]
        axis.set_minor_locator(MinorSymLogLocator(lt, **({} if k == 10 else {"nints": k})))
        major = [float(x) for x in axis.get_majorticklocs()]
        want = ([-lt * 10.0 ** i for i in range(n, -1, -1)] if n >= 0 else []) + [0.0] + ([lt * 10.0 ** i for i in range(m + 1)] if m >= 0 else [])
        if not same([(x, 0) for x in major], [(x, 0) for x in want], 1e-9):
            lab("other major ticks")   # decided by matplotlib
            return
        minor = sorted(float(x) for x in axis.get_minorticklocs())
    lab.nt(len(want) > 2)
    expect(all(np.isfinite(minor)), "minor ticks %s", minor)
    exp = []
    for a, b in zip(want, want[1:]):
        d = k if abs(a + b) / 2 < lt else k - 1
        exp += [a + (b - a) * i / d for i in range(1, d)]
    tol = lambda x: 1e-9 * max(abs(x), lt)   # noqa: E731
    inside = [x for x in minor if want[0] + tol(want[0]) < x < want[-1] - tol(want[-1]) and not any(abs(x - w) <= tol(w) for w in want)]
    expect(len(inside) == len(exp) and all(abs(x - e) <= tol(e) for x, e in zip(inside, sorted(exp))),
           "the minor ticks between the major ticks %s are %s, expected %s", want, inside, sorted(exp))


# ---- generators -----------------------------------------------------------------------------------------------------
def coordinate():
    return st.one_of(st.sampled_from([0.0, 5.0, 10.0, 85.0]), st.floats(-200.0, 500.0).map(lambda x: round(x, 3)))


def points(lo=1, hi=30):
    return st.lists(st.tuples(coordinate(), coordinate()).map(list), min_size=lo, max_size=hi)


@st.composite
def fields(draw):
    return {"kind": draw(st.sampled_from(["coordinates", "borefield", "area", "area"])), "xy": draw(points()), "other": draw(points()),
            "tuples": draw(st.booleans()), "perimeter": draw(st.one_of(points(3, 7), st.just([]))), "no_go": draw(st.one_of(st.none(), points(3, 6))),
            "points": draw(st.integers(0, 3)) > 0}


@st.composite
def domain(draw):
    return {"fields": draw(st.lists(points(1, 8), min_size=1, max_size=12)), "exists": draw(st.booleans()),
            "folder": draw(st.sampled_from([["d"], ["a", "b"], ["Domain 1"], ["x.y"]]))}


@st.composite
def gsets(draw):
    hs = draw(st.lists(st.one_of(st.sampled_from([8.0, 8, 24.0, 48.0, 96.0, 192.0, 384.0]), st.floats(20.0, 400.0).map(lambda x: round(x, 2))),
                       min_size=1, max_size=6, unique=True))
    n = draw(st.integers(2, 12))
    t = sorted(draw(st.lists(st.floats(-8.5, 3.0).map(lambda x: round(x, 3)), min_size=n, max_size=n, unique=True)))
    return {"heights": hs, "t": t, "B": draw(st.sampled_from([5.0, 6.5, 3.0, 7.25])),
            "scale": [draw(st.floats(0.5, 8.0).map(lambda x: round(x, 3))) for _ in hs]}


@st.composite
def profiles(draw):
    ms = draw(st.lists(st.tuples(st.integers(1, 12), st.sampled_from([[True, True], [True, True], [True, False], [False, True]])), min_size=1, max_size=4))
    return {"load": draw(loads.spec()), "bhe": draw(st.integers(0, len(heat.POOL) - 1)), "months": [[m] + list(s) for m, s in ms]}


def ticks(tier):
    for thresh in (-2, 0, 1) if tier == "quick" else (-3, -2, -1, 0, 1, 2, 3):
        for n in (-1, 0, 1, 2, 4):
            for m in (-1, 0, 1, 3):
                for k in (10, 5) if tier == "quick" else (10, 5, 2, 4, 20):
                    if n >= 0 or m >= 0:
                        yield {"thresh": thresh, "neg": n, "pos": m, "nints": k, "axis": (n + m) % 2}


SUBCHECKS = [
    Sub("fields", check_fields, fields, quick=240),
    Sub("domain", check_domain, domain, quick=48),
    Sub("g-functions", check_gfunctions, gsets, quick=120),
    Sub("loads", check_loads, profiles, quick=160),
    Sub("ticks", check_ticks, cases=ticks),
]
