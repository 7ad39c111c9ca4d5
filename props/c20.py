"""C20 Heat exchangers built from shared inputs do not influence each other."""
import json
import os
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from vf import field, heat, loads
from vf.core import Sub
from vf.util import expect, expect_close

ID = "C20"
RULE = ("interleaved histories of up to 9 operations (create, set a height, simulate, size, interpolate, compute g-functions, print, export, store, search) on up to three ground heat exchangers that share boreholes, pipes, "
        "grout, soil, fluid, limits, loads, coordinates and g-functions; every result is compared with that of a new heat exchanger built from inputs of its own, and the shared inputs with what they were; "
        "non-trivial = at least two heat exchangers with operations on both after the second was created")
ASSUMPTIONS = ["the result of a simulation depends on the inputs, the height at construction (through the peak durations) and the height of the simulation only"]
TOL = 2e-3      # pygfunction reuses resistances of inputs that differ by less than 1e-5


def settings(case):
    return [dict(heat.U_TUBE, **b) for b in case["types"]]


class Pool:
    """The shared inputs."""

    def __init__(self, case):
        import ghedt as dt
        import ghedt.peak_load_analysis_tool as plat
        self.case = case
        cfgs = settings(case)
        first = heat.parts(cfgs[0])
        _, _, self.fluid, self.borehole, _, self.grout, self.soil = first
        self.boreholes = [self.borehole] + [heat.parts(c)[3] for c in cfgs[1:]]
        self.cls = [heat.parts(c)[0] for c in cfgs]
        self.pipes = [heat.parts(c)[4] for c in cfgs]
        self.sp = plat.media.SimulationParameters(case["start"], case["end"], 35.0, 5.0, 135.0, 60.0)
        self.sps = [self.sp, plat.media.SimulationParameters(case["start"], case["end"], 30.0, 8.0, 120.0, 70.0)]
        self.loads = [loads.expand(x) for x in case["loads"]]
        self.g = [field.gfunction(f) for f in case["fields"]]
        self.flow = cfgs[0]["flow"]
        self.plain = dt

    def ghe(self, spec):
        """spec: [type, borehole, load, g-function, limits]"""
        t, b, q, g, s = spec
        gf = self.g[g]
        n = len(gf.bore_locations)
        return self.plain.ground_heat_exchangers.GHE(self.flow * n, gf.B, self.cls[t], self.fluid, self.boreholes[b], self.pipes[t], self.grout, self.soil, gf, self.sps[s], self.loads[q])

    def snapshot(self):
        out = {}
        for i, b in enumerate(self.boreholes):
            out["borehole %d" % i] = [float(x) for x in (b.H, b.D, b.r_b, b.x, b.y)]
        for n, o in [("grout", self.grout), ("soil", self.soil)] + [("pipe %d" % i, p) for i, p in enumerate(self.pipes)] + [("limits %d" % i, s) for i, s in enumerate(self.sps)]:
            for k, v in vars(o).items():
                out["%s.%s" % (n, k)] = repr(v)
        out["fluid"] = [float(x) for x in (self.fluid.rho, self.fluid.cp, self.fluid.k, self.fluid.mu)]
        for i, q in enumerate(self.loads):
            out["loads %d" % i] = (len(q), hash(tuple(q)), type(q).__name__)
        for i, g in enumerate(self.g):
            out["g-function %d" % i] = repr(([float(g.B)], [[float(v) for v in p] for p in g.bore_locations], {float(k): [float(x) for x in v] for k, v in g.g_lts.items()},
                                             {float(k): float(v) for k, v in g.r_b_values.items()}, {float(k): float(v) for k, v in g.D_values.items()}, [float(x) for x in g.log_time]))
        return out


class Alone:
    """Results of heat exchangers that share nothing with any other."""

    def __init__(self, case):
        self.case = case
        self.cache = {}

    def get(self, *key):
        k = json.dumps(key)
        if k not in self.cache:
            self.cache[k] = getattr(self, key[0])(*key[1:])
        return self.cache[k]

    def new(self, spec, live):
        g = Pool(self.case).ghe(spec)
        if live:
            g.compute_g_functions()
        return g

    def simulate(self, spec, live, H, method):
        g = self.new(spec, live)
        if H is not None:
            g.bhe.b.H = H
        t = g.simulate(method=method)
        return [float(x) for x in t], [float(x) for x in g.HPEFT]

    def size(self, spec, live):
        g = self.new(spec, live)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g.size(method="hybrid")
        return float(g.bhe.b.H), [float(x) for x in g.HPEFT]

    def interpolate(self, gi, r, kind):
        g = Pool(self.case).g[gi]
        v = g.g_function_interpolation(r, kind=kind) if kind else g.g_function_interpolation(r)
        return [float(x) for x in v[0]] + [float(x) for x in v[1:]]

    def describe(self, spec):
        """The constructed heat exchanger itself."""
        return description(self.new(spec, False))


def description(g):
    return [float(x) for x in (g.nbh, g.B_spacing, g.V_flow_system, g.bhe.m_flow_borehole, g.bhe.compute_effective_borehole_resistance(), float(g.bhe_eq.borehole.r_b), float(g.bhe_eq.r_in), float(g.bhe_eq.r_out),
                               *list(np.asarray(g.hybrid_load.load, dtype=float)), *list(np.asarray(g.hybrid_load.hour, dtype=float)))]


def differ(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if len(a) != len(b):
        return float("inf")
    return float(np.max(np.abs(a - b) / (1.0 + 1e-3 * np.abs(b)))) if len(a) else 0.0


def check(case, lab):
    import ghedt as dt
    pool, alone = Pool(case), Alone(case)
    before = pool.snapshot()
    made = []          # [ghe, spec, live, height set, temperatures expected]
    told, used = [], set()
    tmp = tempfile.mkdtemp(prefix="c20")
    try:
        for op in case["ops"]:
            kind = op[0]
            if kind == "create":
                g = pool.ghe(op[1])
                d = differ(description(g), alone.get("describe", op[1]))
                told.append("create %d" % len(made))
                expect(d <= 1e-3, "after %s: a heat exchanger %s is not the one built alone (%r)", told, op[1], d)
                made.append([g, op[1], False, None, [], False])
                used = set()
            elif kind == "interpolate":
                gi, r, how = op[1:]
                v = pool.g[gi].g_function_interpolation(r, kind=how) if how else pool.g[gi].g_function_interpolation(r)
                told.append("interpolate %r %s" % (r, how))
                d = differ([float(x) for x in v[0]] + [float(x) for x in v[1:]], alone.get("interpolate", gi, r, how))
                expect(d <= 1e-9, "after %s: the shared g-function gives another interpolation than one of its own (%r)", told, d)
                lab("interpolate")
            elif kind == "search":
                flow, sizes = op[1], op[2]
                fields = [[(i * 5.0, j * 5.0) for i in range(a) for j in range(b)] for a, b in sizes]
                given = [list(f) for f in fields]
                told.append("search %s" % sizes)
                try:
                    dt.search_routines.Bisection1D(given, pool.flow, pool.boreholes[0], pool.cls[0], pool.fluid, pool.pipes[0], pool.grout, pool.soil, pool.sps[0], pool.loads[0], flow=flow)
                except ValueError:
                    lab("search rejected")
                expect(given == fields, "after %s: the searched fields changed", told)
                lab("search")
            elif made:
                k = op[1] % len(made)
                rec = made[k]
                g, spec, live, H = rec[:4]
                told.append("%s %d %s" % (kind, k, "" if len(op) < 3 else op[2]))
                used.add(k)
                if kind == "height":
                    g.bhe.b.H = rec[3] = op[2]
                    rec[5] = True
                    continue
                if kind == "simulate":
                    t = g.simulate(method=op[2])
                    want, series = alone.get("simulate", spec, live, H, op[2])
                    d = differ([float(x) for x in t], want)
                    expect(d <= TOL, "after %s: the temperatures are %s, alone %s", told, t, want)
                    rec[4], rec[5] = series, False
                    lab("simulate " + op[2])
                elif kind == "size":
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        g.size(method="hybrid")
                    want, series = alone.get("size", spec, live)
                    expect_close(float(g.bhe.b.H), want, "after %s: the size of heat exchanger %d" % (told, k), rel=1e-4, abs_=1e-3)
                    rec[3], rec[4], rec[5] = float(g.bhe.b.H), series, False
                    lab("size")
                elif kind == "compute":
                    g.compute_g_functions()
                    rec[2] = True
                    lab("compute g-functions")
                elif kind == "print":
                    repr(g), repr(g.bhe), repr(g.hybrid_load)
                    lab("print")
                elif kind == "export":
                    dt.search_routines.oak_ridge_export(field.search_of(g, g.GFunction.bore_locations), os.path.join(tmp, "e"))
                    lab("export")
                elif kind == "store":
                    dt.utilities.create_input_file(g, os.path.join(tmp, "s"))
                    lab("store")
                elif kind == "resistance":
                    if rec[5]:       # resistances are those of the height before until the next simulation
                        continue
                    r = float(g.bhe.compute_effective_borehole_resistance())
                    f = alone.new(spec, False)
                    if rec[3] is not None:
                        f.bhe.b.H = rec[3]
                    f.bhe.update_thermal_resistance()
                    expect_close(r, float(f.bhe.compute_effective_borehole_resistance()), "after %s: the resistance" % told, rel=1e-3)
                    lab("resistance")
            after = pool.snapshot()
            for n in before:
                expect(after.get(n) == before[n], "after %s: the shared %s changed from %s to %s", told, n, str(before[n])[:150], str(after.get(n))[:150])
            for k, (g, spec, live, H, ref, _) in enumerate(made):
                if ref:
                    d = differ([float(x) for x in g.HPEFT], ref)
                    expect(d <= TOL, "after %s: the stored temperatures of heat exchanger %d differ by %r K from those alone", told, k, d)
                if H is not None:
                    expect_close(float(g.bhe.b.H), H, "after %s: the height of heat exchanger %d" % (told, k), rel=1e-4, abs_=1e-3)
    finally:
        shutil.rmtree(tmp)
    lab("%d heat exchangers" % len(made))
    lab.nt(len(made) > 1 and len(used) > 1)


@st.composite
def cases(draw):
    single = {"type": "single", "H": draw(st.sampled_from([96.0, 60.0, 120.0]))}
    other = draw(st.sampled_from([{"type": "single", "H": 100.0}, {"type": "multiple", "n": 2, "r_b": 0.075, "s": 0.03, "r_in": 0.0108, "r_out": 0.013335, "H": 90.0},
                                  {"type": "coaxial", "r_b": 0.075, "r_in": [0.0221, 0.025], "r_out": [0.0487, 0.055], "k_p": [0.4, 0.4], "H": 110.0}]))
    c = {"types": [single, other], "start": draw(st.sampled_from([1, 1, 3]))}
    c["end"] = c["start"] + draw(st.sampled_from([11, 11, 23, 2]))
    c["loads"] = [draw(loads.spec(4.0)), {"base": 300.0, "annual": [4000.0, 0.0], "daily": [900.0, 0.3]}]
    c["fields"] = [draw(field.fields(heights=draw(st.sampled_from([[60.0, 97.5, 135.0], [24.0, 48.0, 96.0, 192.0, 384.0]])))), draw(field.fields(heights=[60.0, 97.5, 135.0]))]
    for f in c["fields"]:
        f["nx"], f["ny"] = min(f["nx"], 4), min(f["ny"], 4)
    two = st.integers(0, 1)
    create = st.tuples(st.just("create"), st.tuples(two, two, two, two, two).map(list)).map(list)
    hh = st.sampled_from([60.0, 75.0, 97.5, 110.0, 135.0])
    idx = st.integers(0, 2)
    use = st.one_of(st.tuples(st.just("height"), idx, hh), st.tuples(st.just("simulate"), idx, st.just("hybrid")), st.tuples(st.just("simulate"), idx, st.just("hybrid")), st.tuples(st.just("size"), idx),
                    st.tuples(st.just("print"), idx), st.tuples(st.just("export"), idx), st.tuples(st.just("store"), idx), st.tuples(st.just("resistance"), idx)).map(list)
    inter = st.tuples(st.just("interpolate"), two, st.sampled_from([0.04, 0.05, 0.0625, 5.0 / 97.5]), st.sampled_from([None, "linear", "quadratic", "lagrange"])).map(list)
    if draw(st.integers(0, 9)) == 0:
        use = st.one_of(use, use, st.tuples(st.just("compute"), idx).map(list), st.just(["search", "borehole", [[1, 1], [1, 2], [2, 2]]]))
        for f in c["fields"]:
            f["nx"], f["ny"] = min(f["nx"], 2), min(f["ny"], 2)
    ops = [draw(create)]
    ops += draw(st.lists(st.one_of(use, use, inter), max_size=3))
    ops.append(draw(create))
    ops += draw(st.lists(st.one_of(use, use, use, use, inter, create), min_size=2, max_size=5))
    n = 0
    for o in ops:
        n += o[0] == "create"
        if n > 3:
            o[0:] = ["print", 0]
    c["ops"] = ops
    if draw(st.integers(0, 11)) == 0:
        c["end"] = c["start"] + 1
        for o in ops:
            if o[0] == "simulate":
                o[2] = draw(st.sampled_from(["hourly", "hybrid"]))
    return c


SUBCHECKS = [
    Sub("history", check, cases, quick=72, thorough=2000, cpu_s=200, shrink_s=90),
]
