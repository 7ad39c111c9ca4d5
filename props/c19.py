"""C19 Stored inputs and exported results restore what was stored."""
import contextlib
import json
import math
import os
import pickle
import re
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from vf import field, heat, loads
from vf.core import Sub
from vf.util import expect, expect_close

ID = "C19"
RULE = ("JSON documents and file names (unicode, dots, spaces, sub-directories, default names, overwriting), stored heat exchangers, ground heat exchangers of all types and designs of all routines that are read back and used, and exports "
        "and reports of designs of any height from 6 m, any field, before and after simulation and sizing, with 12 to 40 long-time-step values; everything is read back and compared with independent references; "
        "non-trivial = nested documents, restored objects that are used, designs after a history")
ASSUMPTIONS = ["documents contain what JSON can represent", "short-time-step values may be thinned out in exports and reports, long-time-step values may not", "files are written in a scratch directory"]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c19")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


# ---- JSON files -----------------------------------------------------------------------------------------------------
def check_json(case, lab):
    import ghedt as dt
    u = dt.utilities
    with scratch():
        folder = os.path.join(*case["folder"]) if case["folder"] else ""
        if folder:
            u.create_if_not(folder)
            expect(os.path.isdir(folder), "create_if_not(%r) creates no directory", folder)
            with open(os.path.join(folder, "keep"), "w") as f:
                f.write("x")
            u.create_if_not(folder)
            expect(os.path.exists(os.path.join(folder, "keep")), "create_if_not(%r) empties a directory that exists", folder)
            lab("folder")
        for k, (name, doc, indent) in enumerate(case["docs"]):
            p = os.path.join(folder, name)
            before = json.dumps(doc)
            if indent == "default":
                u.js_dump(p, doc)
            else:
                u.js_dump(p, doc, indent=indent)
            expect(json.dumps(doc) == before, "writing a document changes it")
            got = u.js_load(p + ".json")
            expect(got == doc and json.dumps(got) == before, "%r is read back as %s instead of %s", name, str(got)[:200], before[:200])
        last = {}
        for name, doc, _ in case["docs"]:
            last[name] = doc
        lab.nt(isinstance(doc, (dict, list)) and len(doc) > 0)
        if len(last) < len(case["docs"]):
            lab("overwritten")
        for name, doc in last.items():
            expect(u.js_load(os.path.join(folder, name) + ".json") == doc, "%r changed when another file was written", name)
        have = sorted(os.listdir(folder or "."))
        want = sorted([n + ".json" for n in last] + (["keep"] if folder else []))
        expect(have == want, "the files written are %s, not %s", have, want)


# ---- pickled inputs -------------------------------------------------------------------------------------------------
def state(g):
    """What is observable of a ground heat exchanger."""
    b = g.bhe
    return json.dumps([float(b.b.H), float(b.b.D), float(b.b.r_b), float(g.B_spacing), float(g.nbh), float(g.V_flow_system), [float(x) for x in g.HPEFT], [float(x) for x in g.dTb],
                       [[float(x) for x in p] for p in g.GFunction.bore_locations], {str(float(k)): [float(x) for x in v] for k, v in g.GFunction.g_lts.items()},
                       {str(float(k)): float(v) for k, v in g.GFunction.r_b_values.items()}, {str(float(k)): float(v) for k, v in g.GFunction.D_values.items()}, list(map(float, g.GFunction.log_time)), [float(x) for x in g.hourly_extraction_ground_loads],
                       [float(x) for x in g.hybrid_load.load], [float(x) for x in g.hybrid_load.hour], [float(x) for x in g.radial_numerical.g], float(b.m_flow_borehole), float(b.soil.k), float(b.grout.k),
                       str(b.pipe.pos), str(b.pipe.k), str(vars(g.sim_params)), float(g.bhe_eq.borehole.r_b), float(g.bhe_eq.r_in), float(g.bhe_eq.grout.k)])


def use(g, ops):
    out = []
    for op in ops:
        if op[0] == "height":
            g.bhe.b.H = op[1]
        elif op[0] == "simulate":
            out.append([float(x) for x in g.simulate(method="hybrid")])
        elif op[0] == "size":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g.size(method="hybrid")
            out.append(float(g.bhe.b.H))
    return out


def apart(a, b):
    fa, fb = np.array(sum([x if isinstance(x, list) else [x] for x in a], [])), np.array(sum([x if isinstance(x, list) else [x] for x in b], []))
    return float(np.max(np.abs(fa - fb))) if len(fa) else 0.0


def check_stored(case, lab):
    import ghedt as dt
    u = dt.utilities
    g = field.make(case)
    first = use(g, case["before"])
    what = "a stored %s heat exchanger after %s" % (dict(heat.U_TUBE, **case["bhe"])["type"], case["before"])
    with scratch():
        s0 = state(g)
        if case["name"] is None:
            u.create_input_file(g)
            p = "ghedt_input"
        else:
            u.create_input_file(g, file_name=case["name"])
            p = case["name"]
        expect(os.listdir(".") == [p + ".obj"], "storing %r writes %s", p, os.listdir("."))
        expect(state(g) == s0, "%s changes by being stored", what)
        r = u.read_input_file(p + ".obj")
        r2 = u.read_input_file(os.path.abspath(p + ".obj"))
    expect(state(r) == s0 and state(r2) == s0, "%s is not restored as it was", what)
    a = use(r, case["after"])
    expect(state(g) == s0 and state(r2) == s0, "using a restored heat exchanger changes others")
    b = use(g, case["after"])
    expect(apart(a, b) <= 1e-3, "%s gives %s when restored, %s when not", what, a, b)
    lab(dict(heat.U_TUBE, **case["bhe"])["type"], "after a history" if first else "new")
    lab.nt(bool(case["after"]))


def check_objects(case, lab):
    """Any other object: parts of an input in containers, as the Design interface stores them."""
    import ghedt as dt
    u = dt.utilities
    cls, m, fl, b, pipe, grout, soil = heat.parts(case["bhe"])
    doc = {"loads": case["doc"], "parts": [cls, b, pipe, grout, soil, fl], "array": np.arange(case["n"]) * 0.1}
    with scratch():
        u.create_input_file(doc, case["name"])
        expect(os.path.exists(case["name"] + ".obj"), "storing in %r writes %s", case["name"], os.listdir("."))
        r = u.read_input_file(case["name"] + ".obj")
        with open(case["name"] + ".obj", "rb") as f:
            expect(set(pickle.load(f)) == set(doc), "the file does not hold the object")
    expect(r["loads"] == case["doc"] and r["parts"][0] is cls and bool(np.array_equal(r["array"], doc["array"])), "the stored object is restored as %s", str(r)[:200])
    for x, y in zip(r["parts"][1:5], doc["parts"][1:5]):
        expect(str(vars(x)) == str(vars(y)), "%s is restored as %s", vars(y), vars(x))
    x = r["parts"][0](m, r["parts"][5], r["parts"][1], r["parts"][2], r["parts"][3], r["parts"][4])
    y = cls(m, fl, b, pipe, grout, soil)
    expect_close(float(x.compute_effective_borehole_resistance()), float(y.compute_effective_borehole_resistance()), "resistance of restored parts", rel=1e-4)
    lab.nt()


# ---- export and report ----------------------------------------------------------------------------------------------
def log_times(n):
    """n long-time-step values: Eskilson's without some, or with values between them."""
    x = list(field.LOG_TIME)
    if n <= 27:
        keep = sorted({0, 26} | set(np.linspace(0, 26, n).astype(int).tolist()))
        return [x[i] for i in keep]
    k = 0
    while len(x) < n:
        x.insert(2 * k + 1, round(0.5 * (x[2 * k] + x[2 * k + 1]), 6))
        k += 1
    return x


def make(case):
    import ghedt as dt
    import ghedt.peak_load_analysis_tool as plat
    cls, m, fl, b, pipe, grout, soil = heat.parts(case["bhe"])
    f = case["field"]
    n = f["nx"] * f["ny"]
    xs = log_times(case["values"])
    hs = [float(h) for h in f["heights"]]
    g = {h: [float(v) for v in np.interp(xs, field.LOG_TIME, field.curve(h, r, f["B"], n))] for h, r in zip(hs, f["r_b"])}
    gf = dt.gfunction.GFunction(B=f["B"], r_b_values=dict(zip(hs, f["r_b"])), D_values={h: 2.0 for h in hs}, g_lts=g, log_time=xs, bore_locations=field.coordinates(f["nx"], f["ny"], f["B"]))
    sp = plat.media.SimulationParameters(case["start"], case["end"], *case["limits"])
    q = loads.expand(case["load"])
    return dt.ground_heat_exchangers.GHE(dict(heat.U_TUBE, **case["bhe"])["flow"] * n, f["B"], cls, fl, b, pipe, grout, soil, gf, sp, q), xs, g, q


def expected_g(case, H, xs, g):
    """(short times, short values, long values) of the combined g-function at H."""
    _, eq, radial = field.reference_bhe(heat.height_of(case["bhe"], H))
    hs = [float(h) for h in case["field"]["heights"]]
    h = H
    for e in (min(hs), max(hs)):
        if abs(h - e) < 1e-6:
            h = e
    long_ = np.asarray(field.poly_interp(hs, [g[x] for x in hs], h), dtype=float)
    rb = float(field.poly_interp(hs, case["field"]["r_b"], h))
    long_ = long_ - math.log(dict(heat.U_TUBE, **case["bhe"])["r_b"] / rb)
    s, v = np.asarray(radial.lntts, dtype=float), np.asarray(radial.g, dtype=float)
    keep = s < xs[0]
    return s[keep], v[keep], long_, eq


def check_pairs(pairs, short, long_, what, tol_x, tol_g):
    """The pairs are points of the combined g-function, in order, with all the long-time-step values."""
    sx, sv, xs, gl = short[0], short[1], long_[0], long_[1]
    expect(len(pairs) >= len(xs), "%s: %d values, although there are %d long-time-step values", what, len(pairs), len(xs))
    for a, b in zip(pairs, pairs[1:]):
        expect(b[0] > a[0] or (tol_x > 1e-6 and b[0] == a[0]), "%s: the times do not increase: %r then %r", what, a[0], b[0])
    head, tail = pairs[:len(pairs) - len(xs)], pairs[len(pairs) - len(xs):]
    for (x, y), ex, ey in zip(tail, xs, gl):
        expect(abs(x - ex) <= tol_x and abs(y - ey) <= tol_g * max(1.0, abs(ey)), "%s: the long-time-step value is %r, expected %r", what, (x, y), (ex, ey))
    for x, y in head:
        k = int(np.argmin(np.abs(sx - x)))
        expect(abs(sx[k] - x) <= max(tol_x, 0.1 if sx[k] < -40 else 0.0), "%s: time %r is not one of the short-time-step response", what, x)
        expect(abs(sv[k] - y) <= tol_g * max(1.0, abs(sv[k])), "%s: g(%r) = %r, expected %r", what, x, y, sv[k])
    # the part between the first seconds and the long time steps is covered evenly enough to interpolate
    return len(head)


def history(case, g):
    for op in case["history"]:
        if op[0] == "height":
            g.bhe.b.H = op[1]
            g.simulate(method="hybrid")
        else:
            use(g, [op])


def check_export(case, lab):
    import ghedt as dt
    g, xs, curves, q = make(case)
    history(case, g)
    H = float(g.bhe.b.H)
    n = case["field"]["nx"] * case["field"]["ny"]
    search = field.search_of(g, field.coordinates(case["field"]["nx"], case["field"]["ny"], case["field"]["B"]))
    s0 = state(g)
    what = "the export of %d %s boreholes of %r m after %s" % (n, dict(heat.U_TUBE, **case["bhe"])["type"], H, [o[0] for o in case["history"]])
    with scratch():
        if case["name"] is None:
            dt.search_routines.oak_ridge_export(search)
            p = "ghedt_output"
        else:
            dt.search_routines.oak_ridge_export(search, file_name=case["name"])
            p = case["name"]
        expect(os.listdir(".") == [p + ".json"], "%s writes %s instead of %s", what, os.listdir("."), p + ".json")
        with open(p + ".json") as f:
            d = json.load(f)
    expect(state(g) == s0, "%s changes it", what)
    expect_close(d["borehole_length"], H, what + ": length", rel=1e-12)
    expect(d["number_of_boreholes"] == n, "%s states %r boreholes", what, d["number_of_boreholes"])
    sx, sv, gl, eq = expected_g(case, H, xs, curves)
    pairs = [(p["ln_tts"], p["g_value"]) for p in d["g_function_pairs"]]
    k = check_pairs(pairs, (sx, sv), (xs, gl), what, 1e-9, 1e-4)
    expect(k >= min(25, len(sx) - 1), "%s has %d of %d short-time-step values", what, k, len(sx))
    if k > 1:
        gaps = np.diff([int(np.argmin(np.abs(sx - x))) for x, _ in pairs[:k]])
        expect(int(np.max(gaps)) <= max(1, len(sx) // 30) and len(sx) - 1 - int(np.argmin(np.abs(sx - pairs[k - 1][0]))) <= max(1, len(sx) // 30), "%s leaves gaps of %s short-time-step values of %d", what, gaps.tolist(), len(sx))
    u = d["single_u_tube"]
    for key, v, rel in (("r_b", eq.borehole.r_b, 1e-9), ("r_in", eq.r_in, 1e-9), ("r_out", eq.r_out, 1e-9), ("s", eq.pipe.s, 1e-8), ("m_flow_borehole", eq.m_flow_borehole, 1e-12), ("k_s", dict(heat.U_TUBE, **case["bhe"])["k_s"], 1e-12),
                        ("k_p", eq.pipe.k, 2e-3), ("k_g", eq.grout.k, 2e-2)):
        expect_close(float(u[key]), float(v), "%s: %s" % (what, key), rel=rel, abs_=1e-9)
    expect(len(u["pos"]) == len(eq.pos) and all(abs(a - b) <= 1e-8 for p, q_ in zip(u["pos"], eq.pos) for a, b in zip(p, q_)), "%s: the pipes are at %s, expected %s", what, u["pos"], eq.pos)
    if dict(heat.U_TUBE, **case["bhe"])["type"] == "single":
        expect_close(float(u["k_g"]), dict(heat.U_TUBE, **case["bhe"])["k_g"], what + ": grout conductivity", rel=1e-12)
    lab(dict(heat.U_TUBE, **case["bhe"])["type"], "few short-time-step values" if len(sx) < 30 else "many", "%s long-time-step values" % ("27" if len(xs) == 27 else "other"))
    lab.nt(bool(case["history"]))


def lines(text):
    out = {}
    for ln in text.splitlines():
        m = re.match(r"^(.*?)\s*= (\S+)", ln)
        if m:
            out.setdefault(m.group(1).strip(), []).append(m.group(2).split("(")[0])
    return out


MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def check_report(case, lab):
    g, xs, curves, q = make(case)
    history(case, g)
    H = float(g.bhe.b.H)
    n = case["field"]["nx"] * case["field"]["ny"]
    s0 = state(g)
    text = repr(g)
    expect(state(g) == s0, "printing a ground heat exchanger changes it")
    again = repr(g)
    c = dict(heat.U_TUBE, **case["bhe"])
    what = "the report of %d %s boreholes of %r m" % (n, c["type"], H)
    expect(re.sub(r"0x[0-9a-f]+", "", again) == re.sub(r"0x[0-9a-f]+", "", text), "%s differs when printed again", what)
    t = lines(text)

    def line(name, value, nth=0, tol=6e-5, rel=1e-9):
        expect(name in t and len(t[name]) > nth, "%s does not state %s", what, name)
        got = float(t[name][nth])
        expect(abs(got - value) <= tol + rel * abs(value), "%s states %s = %r, expected %r", what, name, got, value)

    line("Number of borheoles", n, tol=0)
    line("Depth of the borehole", H)
    line("Bore hole spacing", case["field"]["B"])
    line("Mass flow borehole", float(g.bhe.m_flow_borehole))
    line("Undisturbed ground temperature", c["ugt"])
    lo = case["limits"]
    for name, v in (("Start month", case["start"]), ("End month", case["end"]), ("Max EFT Allowable", lo[0]), ("Min EFT Allowable", lo[1]), ("Maximum height", lo[2]), ("Minimum height", lo[3])):
        line(name, v)
    b, eq, _ = field.reference_bhe(heat.height_of(case["bhe"], H))
    Rb = float(b.compute_effective_borehole_resistance())
    line("Effective borehole resistance", Rb, tol=1e-4)
    line("Effective borehole resistance", float(eq.compute_effective_borehole_resistance()), nth=1, tol=2e-4)
    fl = heat.fluid(c)
    if c["type"] != "coaxial":
        mp = g.bhe.m_flow_borehole / (c["n"] if c["type"] == "multiple" else 1)
        line("Reynolds number", 2.0 * mp / (math.pi * c["r_in"] * fl.mu), rel=1e-8)
    else:
        line("Reynolds annulus", 2.0 * g.bhe.m_flow_borehole / (math.pi * (c["r_in"][1] + c["r_out"][0]) * fl.mu), rel=1e-8)
        line("Reynolds inner", 2.0 * g.bhe.m_flow_borehole / (math.pi * c["r_in"][0] * fl.mu), rel=1e-8)
    line("Reynolds number", 2.0 * g.bhe.m_flow_borehole / (math.pi * float(eq.r_in) * fl.mu), nth=-1, rel=1e-7)
    if case["history"]:
        hi, lo_ = float(max(g.HPEFT)), float(min(g.HPEFT))
        line("Max HP entering temp", hi)
        line("Min HP entering temp", lo_)
        line("Excess fluid temperature", max(hi - lo[0], lo[1] - lo_))
        lab.nt()
    else:
        expect("Max HP entering temp" not in t, "%s states temperatures although nothing was simulated", what)
    # the monthly loads
    rej, ext = loads.split(q)
    ref = [loads.stats(rej), loads.stats(ext)]
    rows = {}
    for ln in text.splitlines():
        w = ln.split()
        if w and w[0] in MONTHS:
            rows[w[0]] = [float(v) for v in w[1:]]
    expect(list(rows) == MONTHS, "%s has rows for %s", what, list(rows))
    for i, name in enumerate(MONTHS):
        r = rows[name]
        expect(len(r) == 10, "%s: the row of %s is %s", what, name, r)
        for k in (0, 1):      # total, peak, average, peak day
            for j, (pos, src) in enumerate(((0, 0), (2, 2), (4, 1), (6, 3))):
                v = float(ref[k][src][i + 1])
                if src == 3:
                    v = float(v) if v else 0.0
                    if ref[k][2][i + 1] == 0.0:
                        continue
                expect(abs(r[pos + k] - v) <= 2e-6 + 1e-5 * abs(v), "%s: %s %s of %s is %r, expected %r", what, ("rejection", "extraction")[k], ("total", "peak", "average", "peak day")[j], name, r[pos + k], v)
    # the coordinates and the g-function
    body = text.split("Coordinates", 1)[1].split("G-Function", 1)
    xy = [tuple(float(v) for v in ln.split()) for ln in body[0].splitlines()[2:] if ln.strip()]
    expect(xy == [(float(a), float(b_)) for a, b_ in g.GFunction.bore_locations] and len(xy) == n, "%s lists the boreholes %s", what, xy[:6])
    pairs = [tuple(float(v) for v in ln.split()) for ln in body[1].splitlines()[2:] if ln.strip()]
    sx, sv, gl, _ = expected_g(case, H, xs, curves)
    k = check_pairs(pairs, (sx, sv), (xs, gl), what, 6e-5, 2e-4)
    expect(k >= min(40, len(sx)), "%s has %d of %d short-time-step values", what, k, len(sx))
    lab(c["type"], "few short-time-step values" if len(sx) < 50 else "many")


def names():
    return st.sampled_from(["a", "out.v1", "with space", "größe", "x.json", "data.obj", "a-b_c", "0", ".hidden", "long" * 20])


def docs():
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-10 ** 12, 10 ** 12), st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=12))
    return st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=5), st.dictionaries(st.text(max_size=8), c, max_size=5)), max_leaves=20)


@st.composite
def jsons(draw):
    k = draw(st.integers(1, 4))
    return {"folder": draw(st.sampled_from([[], [], ["out"], ["a", "b c"], ["x", "y", "z"]])),
            "docs": [[draw(names()), draw(docs()), draw(st.sampled_from(["default", None, 0, 2, 4]))] for _ in range(k)]}


@st.composite
def objects(draw):
    return {"bhe": draw(heat.configs()), "doc": draw(docs()), "n": draw(st.integers(0, 50)), "name": draw(names())}


@st.composite
def designs(draw, shallow=True):
    low = draw(st.sampled_from([False, False, True])) if shallow else False
    hmin, hmax = (6.0, 40.0) if low else (40.0, 200.0)
    c = {"bhe": draw(heat.configs(hmin=hmin, hmax=hmax)), "load": draw(loads.spec(4.0))}
    hs = draw(st.sampled_from([[6.0, 20.0, 40.0], [5.0, 45.0]] if low else [[60.0, 97.5, 135.0], [40.0, 200.0], [24.0, 48.0, 96.0, 192.0, 384.0]]))
    c["field"] = draw(field.fields(heights=hs))
    c["start"] = draw(st.sampled_from([1, 1, 4]))
    c["end"] = c["start"] + draw(st.sampled_from([0, 11, 11, 23]))
    lo, hi = (8.0, 38.0) if low else (60.0, 135.0)
    c["limits"] = [35.0, 5.0, hi, lo]
    hh = st.builds(lambda x: round(x, 3), st.floats(lo, hi))
    c["history"] = draw(st.lists(st.one_of(st.tuples(st.just("height"), hh), st.just(("simulate",)), st.just(("size",))).map(list), max_size=2))
    c["values"] = draw(st.sampled_from([27, 27, 12, 20, 30, 40]))
    c["name"] = draw(st.one_of(st.none(), names()))
    return c


@st.composite
def stored(draw):
    c = draw(designs(shallow=False))
    op = st.one_of(st.tuples(st.just("height"), st.sampled_from([80.0, 120.0, 100.5])), st.just(("simulate",)), st.just(("size",))).map(list)
    c["before"] = draw(st.lists(op, max_size=2))
    c["after"] = draw(st.lists(op, min_size=1, max_size=2)) + [["simulate"]]
    return c


def stored_designs():
    from props import c18
    return c18.lands(again=("stored",))


def check_design(case, lab):
    """A stored design of any routine finds what the design itself finds, in the same steps (on a stand-in simulation)."""
    from props import c18
    c18.check_land(case, lab)
    lab.nt(not case["first"])


SUBCHECKS = [
    Sub("design", check_design, stored_designs, quick=800, thorough=20000, shards=4),
    Sub("stored", check_stored, stored, quick=24, thorough=500, cpu_s=120),
    Sub("export", check_export, designs, quick=80, thorough=1600, cpu_s=120),
    Sub("report", check_report, designs, quick=80, thorough=1600, cpu_s=120),
    Sub("objects", check_objects, objects, quick=80, thorough=1600, shards=4),
    Sub("json", check_json, jsons, quick=1500, thorough=30000, shards=4),
]
