"""C11 Borehole resistance depends only on the current state, not on the history."""
import copy
import math

import numpy as np

from hypothesis import strategies as st

from vf import heat
from vf.core import Sub
from vf.util import expect, expect_close, expect_raises

ID = "C11"
RULE = ("single, multiple (series, parallel; one to three U-tubes) and coaxial heat exchangers of random valid geometry, followed by 0 to 6 changes of "
        "flow rate, fluid, height, grout or soil conductivity, simultaneously or one after the other; after every step the resistances are compared with those of pipe models "
        "built directly from the current state; fluids may differ in one property only, or change in place; non-trivial = at least two changes, one of them of the flow rate or the fluid")
ASSUMPTIONS = ["pygfunction's multipole pipe models, convection and conduction correlations are the reference", "agreement to 1e-9 relative, of borehole resistances to 3e-5 (pygfunction reuses its last result for inputs within 1e-5)",
               "height, grout and soil changes take effect with the next update of the resistances, as sizing does"]
REL = 1e-9
REL_RB = 3e-5


def reference(state):
    """Resistances of the current state, directly from pygfunction."""
    import ghedt.peak_load_analysis_tool as plat
    import pygfunction as gt
    gt.pipes._thermal_resistances_dict["pos"] = None     # pygfunction returns the result of its last call for inputs that differ by less than 1e-5
    c = dict(heat.U_TUBE, **state)
    fl = heat.fluid(c)
    m = c["m"]
    b = gt.boreholes.Borehole(c["H"], c["D"], c["r_b"], 0.0, 0.0)
    conv = gt.pipes.convective_heat_transfer_coefficient_circular_pipe
    cond = gt.pipes.conduction_thermal_resistance_circular_pipe
    if c["type"] == "coaxial":
        (ii, io), (oi, oo) = c["r_in"], c["r_out"]
        hin, hout = gt.pipes.convective_heat_transfer_coefficient_concentric_annulus(m, io, oi, fl.mu, fl.rho, fl.k, fl.cp, c["eps"])
        h = conv(m, ii, fl.mu, fl.rho, fl.k, fl.cp, c["eps"])
        R_ff = 1 / (h * 2 * math.pi * ii) + cond(ii, io, c["k_p"][0]) + 1 / (hin * 2 * math.pi * io)
        R_fp = cond(oi, oo, c["k_p"][1]) + 1 / (hout * 2 * math.pi * oi)
        p = gt.pipes.Coaxial((0, 0), np.array([ii, oi]), np.array([io, oo]), b, c["k_s"], c["k_g"], R_ff, R_fp, J=2)
        return {"R_ff": R_ff, "R_fp": R_fp, "Rb": p.effective_borehole_thermal_resistance(m, fl.cp), "m_pipe": m}
    n = 1 if c["type"] == "single" else c["n"]
    series = c["type"] == "single" or c.get("config", "parallel") == "series"
    mp = m if series else m / n
    d = c["s"] / 2 + c["r_out"]
    pos = []
    for i in range(2 * n):
        a = math.pi + i * math.pi / n
        pos.append((d * math.cos(a), d * math.sin(a)))
    h = conv(mp, c["r_in"], fl.mu, fl.rho, fl.k, fl.cp, c["eps"])
    R_f, R_p = 1 / (h * 2 * math.pi * c["r_in"]), cond(c["r_in"], c["r_out"], c["k_p"])
    if c["type"] == "single":
        p = gt.pipes.SingleUTube(pos, c["r_in"], c["r_out"], b, c["k_s"], c["k_g"], R_f + R_p)
    else:
        p = gt.pipes.MultipleUTube(pos, c["r_in"], c["r_out"], b, c["k_s"], c["k_g"], R_f + R_p, n, config=c.get("config", "parallel"))
    return {"h_f": h, "R_f": R_f, "R_p": R_p, "R_fp": R_f + R_p, "m_pipe": mp, "Rb": p.effective_borehole_thermal_resistance(m, fl.cp)}


def compare(bhe, got_rb, state, what):
    ref = reference(state)
    expect_close(float(got_rb), ref["Rb"], what + ": effective borehole resistance", rel=REL_RB, abs_=0.0)
    expect_close(float(bhe.R_fp), ref["R_fp"], what + ": fluid to outer pipe wall resistance", rel=REL, abs_=0.0)
    expect_close(float(bhe.m_flow_pipe), ref["m_pipe"], what + ": mass flow rate of a pipe", rel=REL, abs_=0.0)
    expect_close(float(bhe.m_flow_borehole), state["m"], what + ": mass flow rate of the borehole", rel=REL, abs_=0.0)
    if state["type"] == "coaxial":
        expect_close(float(bhe.R_ff), ref["R_ff"], what + ": inner to annulus fluid resistance", rel=REL, abs_=0.0)
    else:
        expect_close(float(bhe.h_f), ref["h_f"], what + ": convection coefficient", rel=REL, abs_=0.0)
        expect_close(float(bhe.R_f), ref["R_f"], what + ": fluid resistance", rel=REL, abs_=0.0)
        expect_close(float(bhe.R_p), ref["R_p"], what + ": pipe resistance", rel=REL, abs_=0.0)


def check(case, lab):
    state = dict(heat.U_TUBE, **case["bhe"])
    bhe = heat.bhe(case["bhe"])
    bhe.fluid = copy.copy(bhe.fluid)       # fluids of the harness are shared
    state["m"] = state["flow"] / 1000.0 * heat.fluid(state).rho
    lab(state["type"] + (" " + state["config"] if "config" in state else ""))
    compare(bhe, bhe.compute_effective_borehole_resistance(), state, "new %s heat exchanger" % state["type"])
    expect_close(float(bhe.compute_effective_borehole_resistance()), reference(state)["Rb"], "resistance asked for again", rel=REL_RB)
    for bad in (["Parallel"] if state["type"] == "multiple" else []):
        expect_raises(ValueError, lambda: heat.bhe(dict(case["bhe"], config=bad)), "a flow configuration %r" % bad)
    changed = []
    for k, op in enumerate(case["ops"]):
        what = "after %s" % (case["ops"][:k + 1],)
        kind = op[0]
        changed.append(kind)
        m = fl = None
        if "m" in kind:
            m = op[1] / 1000.0 * heat.fluid(state).rho
            state["m"] = m
        if "f" in kind:
            state["fluid"] = op[2]
            fl = copy.copy(heat.fluid(state))
        if kind == "i":        # the fluid itself changes (another temperature, say) and is given again
            state["fluid"] = op[2]
            new, fl = heat.fluid(state), bhe.fluid
            for k_, v in vars(new).items():
                setattr(fl, k_, v)
        if kind in ("m", "f", "mf", "i"):
            if op[3] == "update":
                got = bhe.update_thermal_resistance(m_flow_borehole=m, fluid=fl)
            else:
                got = bhe.compute_effective_borehole_resistance(m_flow_borehole=m, fluid=fl)
        else:
            if kind == "H":
                bhe.b.H = state["H"] = op[1]
            elif kind == "g":
                # as the equivalent heat exchanger is adapted
                bhe.k_g = bhe.grout.k = state["k_g"] = op[1]
            got = bhe.update_thermal_resistance()
        compare(bhe, got, state, what)
        expect_close(float(bhe.compute_effective_borehole_resistance()), float(got), what + ": resistance asked for again", rel=REL_RB)
    lab.nt(len(changed) >= 2 and any(x in ("m", "f", "mf", "i") for x in changed))


def check_reynolds(case, lab):
    from ghedt.peak_load_analysis_tool import borehole_heat_exchangers as b
    fl = heat.fluid(case)
    m, r, w = case["m"], case["r"], case["r"] + case["gap"]
    lab.nt()
    # Re = rho V D / mu with V = m / (rho A)
    expect_close(b.compute_Reynolds(m, r, 1e-6, fl), m * 2 * r / (math.pi * r * r * fl.mu), "Reynolds number of a pipe", rel=1e-12)
    expect_close(b.compute_Reynolds_concentric(m, r, w, fl), m * 2 * (w - r) / (math.pi * (w * w - r * r) * fl.mu), "Reynolds number of an annulus", rel=1e-9)


@st.composite
def cases(draw):
    c = draw(heat.configs())
    if c["type"] == "multiple" and draw(st.integers(0, 2)):
        c["config"] = draw(st.sampled_from(["series", "parallel"]))
    flow = st.builds(lambda x: round(x, 3), st.floats(0.05, 1.2))
    fluids = st.sampled_from([["Water", 0.0], ["MEG", 25.0], ["MPG", 30.0], ["MEA", 20.0, 10.0], ["Water", 0.0, 40.0], ["Water", 0.0, 20.0, "mu", 3.0], ["Water", 0.0, 20.0, "k", 0.7],
                              ["Water", 0.0, 20.0, "cp", 0.8], ["Water", 0.0, 20.0, "rho", 1.1], ["MEG", 25.0, 20.0, "mu", 0.4]])
    how = st.sampled_from(["update", "compute"])
    op = st.one_of(st.tuples(st.just("m"), flow, st.none(), how), st.tuples(st.just("f"), st.none(), fluids, how), st.tuples(st.just("mf"), flow, fluids, how),
                   st.tuples(st.just("i"), st.none(), fluids, how),
                   st.tuples(st.just("H"), st.builds(lambda x: round(x, 2), st.floats(30.0, 250.0))),
                   st.tuples(st.just("g"), st.builds(lambda x: round(x, 3), st.floats(0.3, 4.0))))
    return {"bhe": c, "ops": draw(st.lists(op, max_size=6))}


def reynolds():
    return st.fixed_dictionaries({"m": st.floats(0.01, 2.0), "r": st.floats(0.005, 0.05), "gap": st.floats(0.002, 0.05),
                                  "fluid": st.sampled_from([["Water", 0.0], ["MEG", 25.0], ["MPG", 30.0]])})


SUBCHECKS = [
    Sub("reynolds", check_reynolds, reynolds, quick=300, shards=1),
    Sub("history", check, cases, quick=1600),
]
