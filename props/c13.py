"""C13 Short-time-step response and combined g-function follow the radial model."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.linalg import solve_banded

from vf import field, heat
from vf.core import Sub
from vf.util import expect, expect_close

ID = "C13"
RULE = ("single U-tubes and equivalents of multiple U-tubes and coaxial heat exchangers of random valid geometry (30 to 400 m), computed by new or reused objects, after other heat "
        "exchangers (also such that differ in one property only) and other final times; ground heat exchangers at their own and at changed heights; synthetic short and long responses with and without overlap; "
        "non-trivial = a reused object or a changed height, or an overlap of the two responses")
ASSUMPTIONS = ["the radial grid of Xu and Spitler as documented in the code (3 fluid, 1 convection, 4 pipe, 27 grout, 500 soil cells, 10 m far field, outermost cell at constant temperature); pipe cells that overlap the grout are KF4",
               "the value labelled t is the one after the implicit step that begins at t, as in the original GLHE implementation", "agreement to 1e-7 relative to the largest value; 3e-5 between heat exchangers created separately, because pygfunction reuses its last result for inputs within 1e-5"]


def reference(s, rb, n_steps, overlapping=True):
    """Independent implicit finite-volume solution, g after every step; with the four pipe cells filling the pipe and the pipe and grout
    cells together having the borehole resistance, or overlapping the grout as in KF4."""
    p, k_s = s["pipe"], s["k_s"]
    ri, ro = p["r_in"], p["r_out"]
    t = ro - ri
    r_bh = s["r_b"]
    r_to = math.sqrt(2.0) * ro
    r_ti = r_to - t
    r_conv = r_ti - t / 4.0
    r_f = r_conv - 0.75 * t
    cells = []     # inner, center, outer, k, rho cp
    df = (r_conv - r_f) / 3.0
    cf = 2.0 * ri * ri * s["rho"] * s["cp"] / (r_conv ** 2 - r_f ** 2)
    for i in range(3):
        c = r_f + i * df
        cells.append((c if i == 0 else c - df / 2, c, c + df / 2, cf / s["cp"], cf))
    R_f, R_p = s["R_f"] / 2.0, s["R_p"] / 2.0
    dc = r_ti - r_conv
    cells.append((r_conv, r_conv + dc / 2, r_conv + dc, math.log(r_ti / r_conv) / (2 * math.pi * R_f), 1.0))
    for i in range(4):
        w = t if overlapping else t / 4
        a = r_ti + i * w
        cells.append((a, a + w / 2, a + w, math.log(r_bh / r_ti) / (2 * math.pi * (R_p if overlapping else rb - R_f)), p["rc"]))
    dg = (r_bh - r_to) / 27.0
    for i in range(27):
        a = r_to + i * dg
        cells.append((a, a + dg / 2, a + dg, math.log(r_bh / r_ti) / (2 * math.pi * (rb - R_f)), s["rc_g"]))
    ds = (10.0 - r_bh - r_bh) / 500.0
    for i in range(500):
        a = r_bh + i * ds
        cells.append((a, a + ds / 2, a + ds, k_s, s["rc_s"]))
    c = np.array(cells)
    n = len(c)
    k2 = 2 * math.pi * c[:, 3]
    res = np.log(c[:-1, 2] / c[:-1, 1]) / k2[:-1] + np.log(c[1:, 1] / c[1:, 0]) / k2[1:]
    K = 1.0 / res
    C = c[:, 4] * math.pi * (c[:, 2] ** 2 - c[:, 0] ** 2) / 120.0
    ab = np.zeros((3, n))
    diag = C.copy()
    diag[:-1] += K
    diag[1:] += K
    diag[-1] = 1.0
    ab[1] = diag
    ab[0, 1:] = -K
    ab[2, :-1] = -K
    ab[2, n - 2] = 0.0
    T = np.zeros(n)
    out = []
    for _ in range(n_steps):
        b = C * T
        b[0] += 1.0
        b[-1] = 0.0
        T = solve_banded((1, 1), ab, b, check_finite=False)
        out.append(T[0])
    return 2 * math.pi * k_s * (np.array(out) - rb)


def state_of(u):
    return {"pipe": {"r_in": float(u.pipe.r_in), "r_out": float(u.pipe.r_out), "rc": u.pipe.rhoCp}, "k_s": u.soil.k, "rc_s": u.soil.rhoCp, "r_b": float(u.b.r_b),
            "rho": u.fluid.rho, "cp": u.fluid.cp, "R_f": float(u.R_f), "R_p": float(u.R_p), "rc_g": u.grout.rhoCp, "H": float(u.b.H)}


def compare(u, lntts, g, what, lab, final=None):
    s = state_of(u)
    ts = s["H"] ** 2 / (9.0 * s["k_s"] / s["rc_s"])
    lntts, g = np.asarray(lntts, dtype=float), np.asarray(g, dtype=float)
    end = max(49 * 3600.0, ts * math.exp(-8.6)) if final is None else final
    n = max(1, math.ceil((end - 120.0 - 1e-9) / 120.0) + 1)
    if abs((end / 120.0) - round(end / 120.0)) < 1e-6 and abs(len(g) - n) <= 1:
        n = len(g)     # rounding decides on the last step
    expect(len(g) == len(lntts) == n, "%s has %d values at %d times, expected %d (until %r s)", what, len(g), len(lntts), n, end)
    t = np.exp(lntts) * ts
    want = np.arange(n) * 120.0 + 1e-12
    d = np.abs(t - want)
    expect(float(np.max(d[1:] / want[1:], initial=0.0)) < 1e-9 and t[0] < 1e-6, "%s: times are not two minutes apart: %s", what, t[:5])
    rb = float(u.compute_effective_borehole_resistance())
    ref = reference(s, rb, n)
    scale = float(np.max(np.abs(ref)))
    if float(np.max(np.abs(g - ref))) <= 1e-7 * scale:
        lab.known_finding("KF4")
    else:
        ref = reference(s, rb, n, overlapping=False)
        k = int(np.argmax(np.abs(g - ref)))
        expect(abs(g[k] - ref[k]) <= 1e-7 * scale, "%s: value %d (%r s) is %r, the radial model gives %r", what, k, want[k], g[k], ref[k])
    expect(bool(np.all(np.diff(g) > 0)), "%s does not increase with time", what)
    return s


def check_sts(case, lab):
    import ghedt.peak_load_analysis_tool as plat
    obj = None
    for j, (cfg, final, where) in enumerate(case["bhes"]):
        b = heat.bhe(cfg)
        u = plat.equivalance.compute_equivalent(b)
        lab(cfg["type"])
        if obj is None or where == "new":
            obj = plat.radial_numerical_borehole.RadialNumericalBH(u)
        else:
            lab("reused")
            lab.nt()
        kw = {} if final is None else {"final_time": final}
        Rb0 = float(u.compute_effective_borehole_resistance())
        ret = obj.calc_sts_g_functions(u, **kw)
        what = "short time step response of heat exchanger %d (%s, %s object)" % (j + 1, cfg["type"], where)
        expect(abs(float(u.compute_effective_borehole_resistance()) - Rb0) <= 1e-12, "%s: the heat exchanger changed", what)
        compare(u, obj.lntts, obj.g, what, lab, final)
        expect(len(ret[0]) == len(obj.lntts) and float(np.max(np.abs(np.asarray(ret[1]) - obj.g))) == 0.0, "%s: returned and stored values differ", what)
        expect_close(float(obj.t_s), u.b.H ** 2 / (9 * u.soil.k / u.soil.rhoCp), what + ": time scale", rel=1e-12)
        for k in (0, 1, len(obj.g) // 2, len(obj.g) - 1):
            expect_close(float(obj.g_sts(obj.lntts[k])), float(obj.g[k]), what + ": interpolation at its own time %d" % k, rel=1e-12)
        if len(obj.g) > 3:
            m = len(obj.g) // 2
            x = 0.25 * obj.lntts[m] + 0.75 * obj.lntts[m + 1]
            expect_close(float(obj.g_sts(x)), 0.25 * obj.g[m] + 0.75 * obj.g[m + 1], what + ": interpolation between two times", rel=1e-9)


def combined(x, y, xs, gs, xl, gl, what, tol=1e-9):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    keep = [i for i in range(len(xs)) if xs[i] < xl[0]]
    ex = [xs[i] for i in keep] + list(xl)
    ey = [gs[i] for i in keep] + list(gl)
    expect(len(x) == len(ex), "%s has %d points, expected %d short and %d long time step points", what, len(x), len(keep), len(xl))
    expect(bool(np.all(np.diff(x) > 0)), "%s: its times do not increase strictly: %s", what, x)
    for k in range(len(ex)):
        # the first time is 1e-12 s up to rounding
        expect_close(float(x[k]), ex[k], "%s: time %d" % (what, k), rel=1e-12, abs_=0.1 if ex[k] < -40 else 1e-12)
        expect_close(float(y[k]), ey[k], "%s: value at %r" % (what, ex[k]), rel=tol, abs_=tol)
    return len(keep)


def check_combine(case, lab):
    import ghedt as dt
    xs, xl = case["xs"], case["xl"]
    gs, gl = [0.1 * i + 0.01 * x for i, x in enumerate(xs)], [3.0 + 0.2 * i for i in range(len(xl))]
    keep = [list(v) for v in (xl, gl, xs, gs)]
    g = dt.ground_heat_exchangers.GHE.combine_sts_lts(xl, gl, xs, gs)
    expect(keep == [xl, gl, xs, gs], "combining changes its inputs")
    n = combined(g.x, g.y, xs, gs, xl, gl, "the combination of short %s and long %s" % (xs, xl))
    lab("overlap" if n < len(xs) else "no overlap")
    lab.nt(n < len(xs))
    pts = sorted(set(list(g.x) + [0.5 * (a + b) for a, b in zip(g.x, g.x[1:])]))
    for p in pts:
        expect_close(float(g(p)), float(np.interp(p, list(xs[:n]) + xl, list(gs[:n]) + gl)), "the combination at %r" % p, rel=1e-9)


def check_field(case, lab):
    """The combined g-function of a ground heat exchanger, at its own and at other heights."""
    ghe = field.make(dict(case, load=None), [1000.0] * 4380 + [-1500.0] * 4380)
    B = case["field"]["B"]
    H0 = dict(heat.U_TUBE, **case["bhe"])["H"]
    for k, H in enumerate([H0] + case["heights"]):
        ghe.bhe.b.H = H
        if k:
            ghe.simulate(method="hybrid")
            lab.nt()
        _, eq, radial = field.reference_bhe(heat.height_of(case["bhe"], H))
        xs, gs = reference_sts(eq, radial.g, lab)
        g = ghe.grab_g_function(B / H)
        x, gl = field.reference_g(case, H, type("R", (), {"lntts": xs, "g": gs}))
        combined(g.x, g.y, [v for v in xs], [v for v in gs], field.LOG_TIME, gl[-len(field.LOG_TIME):], "the combined g-function of %s at %r m (height %d)" % (case["bhe"]["type"], H, k), tol=3e-5)
    lab(case["bhe"]["type"])


def reference_sts(u, g, lab):
    s = state_of(u)
    ts = s["H"] ** 2 / (9.0 * s["k_s"] / s["rc_s"])
    end = max(49 * 3600.0, ts * math.exp(-8.6))
    n = math.ceil((end - 120.0 - 1e-9) / 120.0) + 1
    rb = float(u.compute_effective_borehole_resistance())
    ref = reference(s, rb, n)
    right = ref if len(g) != n or float(np.max(np.abs(g - ref))) <= 3e-5 * float(np.max(np.abs(ref))) else reference(s, rb, n, overlapping=False)
    if right is ref:
        lab.known_finding("KF4")
    ref = right
    return np.log((np.arange(n) * 120.0 + 1e-12) / ts), ref


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    if draw(st.booleans()):
        # the next heat exchanger differs in one property, for the same object
        first = draw(heat.configs(kinds=("single", "single", "multiple", "coaxial"), hmin=30.0, hmax=150.0))
        out = [[first, None, "new"]]
        for _ in range(n):
            out.append([draw(st.sampled_from(heat.neighbours(out[-1][0]))), None, "same"])
        return {"bhes": out}
    return {"bhes": [[draw(heat.configs(kinds=("single", "single", "multiple", "coaxial"), hmin=30.0, hmax=400.0)), draw(st.sampled_from([None, None, None, 3600.0, 7200.0 * 5, 250000.0])),
                      draw(st.sampled_from(["new", "same", "same"]))] for _ in range(n)]}


@st.composite
def combos(draw):
    v = st.integers(-60, 20)
    xs = sorted(draw(st.sets(v, min_size=1, max_size=12)))
    first = draw(st.one_of(v, st.sampled_from(xs), st.just(xs[-1])))
    k = draw(st.integers(1, 6))
    xl = [first / 4.0]
    for _ in range(k):
        xl.append(xl[-1] + draw(st.sampled_from([0.25, 0.7, 1.5])))
    return {"xs": [x / 4.0 for x in xs], "xl": xl}


@st.composite
def fields(draw):
    c = {"bhe": draw(heat.configs(kinds=("single", "single", "multiple", "coaxial"), hmin=40.0, hmax=180.0)), "field": draw(field.fields()), "start": 1, "end": 12}
    c["heights"] = [round(draw(st.floats(40.0, 200.0)), 2) for _ in range(draw(st.integers(0, 2)))]
    return c


SUBCHECKS = [
    Sub("combine", check_combine, combos, quick=600, shards=1),
    Sub("field", check_field, fields, quick=60),
    Sub("sts", check_sts, cases, quick=160),
]
