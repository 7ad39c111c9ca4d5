"""C12 The equivalent single U-tube preserves volumes, flow and resistance."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from props.c11 import reference
from vf import heat
from vf.core import Sub, Violation
from vf.util import expect, expect_close, expect_raises

ID = "C12"
RULE = ("single, multiple (series, parallel; one to four U-tubes) and coaxial heat exchangers of random valid geometry, optionally after changes of flow rate, "
        "fluid or height, are made equivalent; non-trivial = not a single U-tube, with an attainable pipe or grout conductivity")
ASSUMPTIONS = ["the pipe-plus-fluid resistance to preserve is that of the pipes in parallel (multiple) or of the outer pipe (coaxial); the two known deviations KF2 and KF3 in its convective part are accepted only with exactly their values",
               "conductivities are found to about 1e-6: the target lies between the resistances 1e-5 (absolute plus relative) beside the one found",
               "attainable means that the difference has different signs at the two search limits (pipe: initial value / 100 and x 10; grout: 0.01 and 7 W/m.K)",
               "reference resistances come from pygfunction's multipole model of the state"]


def targets(bhe, state):
    """Fluid and pipe volumes per metre and the resistances to be preserved: the convection part as it should be and as KF2 and KF3 have it."""
    c, ref = state, reference(state)
    if c["type"] == "coaxial":
        (ii, io), (oi, oo) = c["r_in"], c["r_out"]
        vf = math.pi * (ii ** 2 + oi ** 2 - io ** 2)
        vp = math.pi * (io ** 2 - ii ** 2 + oo ** 2 - oi ** 2)
        rp = math.log(oo / oi) / (2 * math.pi * c["k_p"][1])
        rc = ref["R_fp"] - rp
        fl = heat.fluid(c)
        import pygfunction as gt
        h = gt.pipes.convective_heat_transfer_coefficient_concentric_annulus(c["m"], io, oi, fl.mu, fl.rho, fl.k, fl.cp, c["eps"])
        rk = 1 / (h[0] * 2 * math.pi * oi)
    else:
        n = 2 * c["n"]
        vf = n * math.pi * c["r_in"] ** 2
        vp = n * math.pi * c["r_out"] ** 2 - vf
        rp = math.log(c["r_out"] / c["r_in"]) / (2 * math.pi * n * c["k_p"])
        rc = 1 / (ref["h_f"] * n * math.pi * 2 * c["r_in"])
        rk = rc / (2 * c["r_in"])
    return vf, vp, rc, rk, rp, ref["Rb"]


def snapshot(bhe):
    p = bhe.pipe
    return [np.array(p.pos).tolist(), np.array(p.r_in).tolist(), np.array(p.r_out).tolist(), np.array(p.k).tolist(), p.s, p.eps, p.rhoCp,
            bhe.b.H, bhe.b.D, bhe.b.r_b, bhe.b.x, bhe.b.y, bhe.grout.k, bhe.grout.rhoCp, bhe.soil.k, bhe.soil.rhoCp, bhe.soil.ugt,
            bhe.m_flow_borehole, bhe.m_flow_pipe, bhe.fluid.cp, bhe.fluid.mu, bhe.fluid.rho, bhe.fluid.k, float(bhe.R_fp), float(bhe.k_g), float(bhe.k_s),
            float(bhe.compute_effective_borehole_resistance())]


def single_state(eq, k_p=None, k_g=None):
    """The state of a single U-tube, for the reference."""
    return {"type": "single", "H": eq.b.H, "D": eq.b.D, "r_b": eq.b.r_b, "r_in": eq.pipe.r_in, "r_out": eq.pipe.r_out, "s": eq.pipe.s, "eps": eq.pipe.eps,
            "k_p": eq.pipe.k if k_p is None else k_p, "k_g": eq.grout.k if k_g is None else k_g, "k_s": eq.soil.k, "m": eq.m_flow_borehole}


def solved(f, x, lo, hi, what, value):
    """x solves f(x) = 0 (f is decreasing or increasing), or is the closest limit.  Returns True when attainable."""
    flo, fhi = f(lo), f(hi)
    if abs(flo) <= 1e-12 or abs(fhi) <= 1e-12:
        return False
    if (flo > 0) == (fhi > 0):
        want = lo if abs(flo) < abs(fhi) else hi
        expect(abs(x - want) <= 1e-6 * want, "%s: not attainable (%r at %r, %r at %r), so %r is expected, got %r", what, flo, lo, fhi, hi, want, x)
        return False
    expect(lo * (1 - 1e-9) <= x <= hi * (1 + 1e-9), "%s %r is outside of %r..%r", what, x, lo, hi)
    d = 1e-5 * (1 + x)
    a, b = f(max(lo, x - d)), f(min(hi, x + d))
    expect(a * b <= 0, "%s: %r gives a difference of %r to %r (%r and %r beside it)", what, x, f(x), value, a, b)
    return True


def check(case, lab):
    import ghedt.peak_load_analysis_tool as plat
    state = dict(heat.U_TUBE, **case["bhe"])
    bhe = heat.bhe(case["bhe"])
    state["m"] = state["flow"] / 1000.0 * heat.fluid(state).rho
    for op in case["ops"]:
        if op[0] == "m":
            state["m"] = op[1] / 1000.0 * heat.fluid(state).rho
            bhe.update_thermal_resistance(m_flow_borehole=state["m"])
        elif op[0] == "f":
            state["fluid"] = op[1]
            bhe.update_thermal_resistance(fluid=heat.fluid(state))
        else:
            bhe.b.H = state["H"] = op[1]
            bhe.update_thermal_resistance()
        lab("after a change of " + op[0])
    before = copy.deepcopy(snapshot(bhe))
    eq = plat.equivalance.compute_equivalent(bhe)
    expect(snapshot(bhe) == before, "the original heat exchanger changed: %r -> %r", before, snapshot(bhe))
    lab(state["type"] + (" " + state["config"] if "config" in state else ""))
    expect_raises(ValueError, lambda: plat.equivalance.compute_equivalent(bhe.pipe), "the equivalent of a pipe")
    if state["type"] == "single":
        expect(eq is bhe, "a single U-tube is not its own equivalent")
        return
    what = "equivalent of a %s heat exchanger" % state["type"]
    expect(type(eq) is plat.borehole_heat_exchangers.SingleUTube, "%s is a %s", what, type(eq).__name__)
    vf, vp, rc, rk, rp, rb = targets(bhe, state)
    ri, ro = float(eq.pipe.r_in), float(eq.pipe.r_out)
    expect_close(2 * math.pi * ri ** 2, vf, what + ": fluid volume per metre", rel=1e-9, abs_=0)
    expect_close(2 * math.pi * (ro ** 2 - ri ** 2), vp, what + ": pipe volume per metre", rel=1e-9, abs_=0)
    expect_close(eq.m_flow_borehole, state["m"], what + ": mass flow rate", rel=1e-12)
    expect_close(eq.m_flow_pipe, state["m"], what + ": mass flow rate of its pipe", rel=1e-12)
    for name, a, b in (("height", eq.b.H, state["H"]), ("depth", eq.b.D, state["D"]), ("roughness", eq.pipe.eps, state["eps"]),
                       ("pipe heat capacity", eq.pipe.rhoCp, state["rc_p"]), ("soil conductivity", eq.soil.k, state["k_s"]),
                       ("soil heat capacity", eq.soil.rhoCp, state["rc_s"]), ("ground temperature", eq.soil.ugt, state["ugt"]),
                       ("grout heat capacity", eq.grout.rhoCp, state["rc_g"])):
        expect_close(a, b, "%s: %s" % (what, name), rel=1e-12)
    fl = heat.fluid(state)
    expect((eq.fluid.cp, eq.fluid.mu, eq.fluid.rho, eq.fluid.k) == (fl.cp, fl.mu, fl.rho, fl.k), "%s: another fluid", what)
    # geometry
    r = [math.hypot(x, y) for x, y in eq.pipe.pos]
    dist = math.hypot(eq.pipe.pos[0][0] - eq.pipe.pos[1][0], eq.pipe.pos[0][1] - eq.pipe.pos[1][1])
    rbh = float(eq.b.r_b)
    expect(len(eq.pipe.pos) == 2 and max(r) + ro <= rbh * (1 + 1e-9), "%s: pipes of radius %r at %r do not fit in the borehole of radius %r", what, ro, r, rbh)
    expect(dist > 2 * ro, "%s: pipes of radius %r overlap, %r apart", what, ro, dist)
    expect_close(dist, eq.pipe.s + 2 * ro, what + ": distance of the pipes for the shank spacing", rel=1e-9)
    if 2 * state["r_b"] > 4 * ro * (1 + 1e-9):
        expect_close(rbh, state["r_b"], what + ": borehole radius", rel=1e-12)
    else:
        lab("larger borehole")
        expect(rbh >= state["r_b"], "%s: borehole radius %r is less than %r", what, rbh, state["r_b"])
    # resistances
    s = single_state(eq)
    s["fluid"] = state.get("fluid", ["Water", 0.0])
    ref = reference(s)
    expect_close(float(eq.R_fp), ref["R_fp"], what + ": its own fluid to pipe wall resistance", rel=1e-9)
    expect_close(float(eq.compute_effective_borehole_resistance()), ref["Rb"], what + ": its own effective borehole resistance", rel=3e-5)
    k0 = math.log(ro / ri) / (4 * math.pi * rp)

    def pipe(conv):
        return solved(lambda k: reference(dict(s, k_p=k))["R_fp"] - (conv + rp), float(eq.pipe.k), k0 / 100, k0 * 10, what + ": pipe conductivity", conv + rp)

    try:
        ok1 = pipe(rc)
    except Violation:
        ok1 = pipe(rk)
        lab.known_finding("KF2" if state["type"] == "coaxial" else "KF3")
        lab("another convection resistance")
    ok2 = solved(lambda k: rb - reference(dict(s, k_g=k))["Rb"], float(eq.grout.k), 0.01, 7.0, what + ": grout conductivity", rb)
    expect_close(float(eq.k_g), float(eq.grout.k), what + ": its two grout conductivities", rel=1e-12)
    lab("pipe " + ("attained" if ok1 else "limit"), "grout " + ("attained" if ok2 else "limit"))
    lab.nt(ok1 or ok2)
    # independent of the original: what is done to one is not seen by the other
    again = plat.equivalance.compute_equivalent(bhe)
    expect(snapshot(again) == snapshot(eq), "%s: another one is different: %r and %r", what, snapshot(eq), snapshot(again))
    keep = snapshot(again)
    eq.b.H, eq.b.r_b = 17.0, 0.2
    eq.grout.k, eq.soil.k, eq.pipe.k, eq.pipe.rhoCp, eq.grout.rhoCp = 9.0, 9.0, 9.0, 9.0, 9.0
    eq.update_thermal_resistance(m_flow_borehole=0.9 * state["m"])
    expect(snapshot(bhe) == before, "changing the equivalent heat exchanger changes the original: %r -> %r", before, snapshot(bhe))
    expect(snapshot(again) == keep, "changing one equivalent heat exchanger changes another: %r -> %r", keep, snapshot(again))
    # the original changes: what was derived from it stays
    bhe.b.H = 2 * state["H"]
    bhe.update_thermal_resistance(m_flow_borehole=1.3 * state["m"])
    bhe.grout.k, bhe.soil.k = 5.0, 5.0
    expect(snapshot(again) == keep, "changing the original changes the equivalent heat exchanger: %r -> %r", keep, snapshot(again))


@st.composite
def cases(draw):
    c = draw(heat.configs(kinds=("single", "multiple", "multiple", "multiple", "coaxial", "coaxial"), hmin=20.0, hmax=300.0))
    if c["type"] == "multiple" and draw(st.integers(0, 2)):
        c["config"] = draw(st.sampled_from(["series", "parallel"]))
    if draw(st.integers(0, 5)) == 0:
        c["k_g"] = draw(st.sampled_from([0.012, 0.018, 0.025, 0.04]))
    flow = st.builds(lambda x: round(x, 3), st.floats(0.08, 1.0))
    op = st.one_of(st.tuples(st.just("m"), flow), st.tuples(st.just("f"), st.sampled_from([["Water", 0.0], ["MEG", 25.0], ["MPG", 30.0]])),
                   st.tuples(st.just("H"), st.builds(lambda x: round(x, 2), st.floats(30.0, 250.0))))
    return {"bhe": c, "ops": draw(st.lists(op, max_size=2))}


SUBCHECKS = [Sub("equivalent", check, cases, quick=480)]
