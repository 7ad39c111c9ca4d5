"""Builders of heat exchangers, fields and g-functions from JSON-able configurations."""
import functools
import json
import math

import numpy as np

U_TUBE = {"type": "single", "H": 100.0, "D": 2.0, "r_b": 0.075, "r_in": 0.0108, "r_out": 0.013335, "s": 0.0323, "eps": 1e-6,
          "k_p": 0.4, "rc_p": 1542e3, "k_s": 2.0, "rc_s": 2343.493e3, "ugt": 18.3, "k_g": 1.0, "rc_g": 3901e3,
          "flow": 0.2, "fluid": ["Water", 0.0]}


@functools.lru_cache(maxsize=64)
def _fluid(name, pct, T, prop=None, factor=1.0):
    import pygfunction as gt
    f = gt.media.Fluid(name, pct, T=T)
    if prop is not None:        # another fluid that differs in one property
        setattr(f, prop, getattr(f, prop) * factor)
        for name, value in (("nu", f.mu / f.rho), ("Pr", f.cp * f.mu / f.k), ("rhoCp", f.rho * f.cp)):
            if hasattr(f, name):
                setattr(f, name, value)
    return f


def fluid(cfg):
    """[name, percent, temperature (20), property, factor]"""
    f = cfg.get("fluid", ["Water", 0.0])
    return _fluid(f[0], f[1], f[2] if len(f) > 2 else 20.0, *f[3:])


def parts(cfg):
    """(bhe class, m_flow per borehole, fluid, borehole, pipe, grout, soil) for a configuration."""
    import ghedt.peak_load_analysis_tool as plat
    import pygfunction as gt
    c = dict(U_TUBE)
    c.update(cfg)
    fl = fluid(c)
    b = gt.boreholes.Borehole(c["H"], c["D"], c["r_b"], 0.0, 0.0)
    soil = plat.media.Soil(c["k_s"], c["rc_s"], c["ugt"])
    grout = plat.media.Grout(c["k_g"], c["rc_g"])
    if c["type"] == "coaxial":
        pipe = plat.media.Pipe((0, 0), list(c["r_in"]), list(c["r_out"]), 0, c["eps"], list(c["k_p"]), c["rc_p"])
        cls = plat.borehole_heat_exchangers.CoaxialPipe
    else:
        n = 1 if c["type"] == "single" else c["n"]
        pos = plat.media.Pipe.place_pipes(c["s"], c["r_out"], n)
        pipe = plat.media.Pipe(pos, c["r_in"], c["r_out"], c["s"], c["eps"], c["k_p"], c["rc_p"])
        cls = plat.borehole_heat_exchangers.SingleUTube if n == 1 and c["type"] == "single" else \
            plat.borehole_heat_exchangers.MultipleUTube
    return cls, c["flow"] / 1000.0 * fl.rho, fl, b, pipe, grout, soil


def bhe(cfg):
    cls, m, fl, b, pipe, grout, soil = parts(cfg)
    if cfg.get("type") == "multiple" and "config" in cfg:
        return cls(m, fl, b, pipe, grout, soil, config=cfg["config"])
    return cls(m, fl, b, pipe, grout, soil)


@functools.lru_cache(maxsize=32)
def _radial(text):
    import ghedt.peak_load_analysis_tool as plat
    u = bhe(json.loads(text))
    r = plat.radial_numerical_borehole.RadialNumericalBH(u)
    r.calc_sts_g_functions(u)
    return u, r


def radial(cfg):
    """(single U-tube, its short-time-step response), cached: the callers do not change them."""
    return _radial(json.dumps(cfg, sort_keys=True))


# a small set of single U-tubes for the load checks
POOL = [{}, {"H": 60.0}, {"H": 135.0, "k_s": 1.2}, {"H": 200.0, "k_s": 3.5, "rc_s": 2.8e6}, {"k_g": 0.7, "flow": 0.6}, {"H": 30.0, "k_s": 2.8},
        {"k_s": 0.9, "k_g": 1.8, "flow": 0.1}, {"r_b": 0.06, "ugt": 10.0, "flow": 0.35}, {"H": 320.0, "flow": 0.5}]


# ---- generators -----------------------------------------------------------------------------------------------------
def _r(x, n=4):
    return float(round(x, n))


def configs(kinds=("single", "multiple", "coaxial"), hmin=30.0, hmax=200.0):
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        c = {"type": draw(st.sampled_from(list(kinds)))}
        u = lambda lo, hi, n=4: _r(draw(st.floats(lo, hi)), n)   # noqa: E731
        c["H"] = draw(st.one_of(st.sampled_from([60.0, 96.0, 100.0, 135.0]), st.builds(_r, st.floats(hmin, hmax), st.just(2))))
        c["H"] = min(max(c["H"], hmin), hmax)
        c["D"] = draw(st.sampled_from([2.0, 2.0, 0.5, 4.0, 1.0]))
        c["k_s"] = draw(st.sampled_from([2.0, 2.0, 0.8, 3.6, 2.423]))
        c["rc_s"] = draw(st.sampled_from([2343.493e3, 1.6e6, 3.2e6, 1.05e6]))
        if c["rc_s"] < 1.6e6:          # keeps the time scale of the g-functions, and with it the horizons they reach
            c["k_s"] = min(c["k_s"], 2.0)
        c["ugt"] = draw(st.sampled_from([18.3, 10.0, 25.0, 5.5]))
        c["k_g"] = draw(st.sampled_from([1.0, 1.0, 0.6, 2.2, 1.57, 0.2]))
        c["rc_g"] = draw(st.sampled_from([3901e3, 2.0e6]))
        c["flow"] = draw(st.one_of(st.sampled_from([0.2, 0.2, 0.5, 0.1]), st.builds(_r, st.floats(0.08, 0.9), st.just(3))))
        c["fluid"] = draw(st.sampled_from([["Water", 0.0], ["Water", 0.0], ["MEG", 0.0], ["MEG", 25.0], ["MPG", 30.0], ["MEA", 20.0, 10.0], ["MMA", 15.0, 15.0]]))
        c["eps"] = draw(st.sampled_from([1e-6, 1e-6, 1.5e-6, 5e-5, 0.0]))
        c["rc_p"] = draw(st.sampled_from([1542e3, 1542e3, 2.2e6]))
        if c["type"] == "coaxial":
            c["r_b"] = u(0.055, 0.11)
            oo = c["r_b"] * u(0.62, 0.95, 3)
            oi = oo * u(0.85, 0.95, 3)
            io = oi * u(0.35, 0.75, 3)
            ii = io * u(0.8, 0.93, 3)
            c["r_in"], c["r_out"] = [ii, io], [oi, oo]
            c["k_p"] = draw(st.sampled_from([[0.4, 0.4], [0.2, 0.4], [0.4, 0.6], [0.4, 45.0], [0.5, 0.3]]))
        else:
            n = 1
            if c["type"] == "multiple":
                n = c["n"] = draw(st.sampled_from([2, 2, 2, 3, 3, 4, 1]))
            c["r_b"] = u(0.055, 0.1)
            lim = 0.34 if n <= 2 else 0.23 if n == 3 else 0.19
            c["r_out"] = min(c["r_b"] * u(0.12, lim, 3), 0.025)
            c["r_in"] = c["r_out"] * u(0.75, 0.9, 3)
            # pipe centres at s / 2 + r_out from the centre: inside of the borehole and not touching each other
            lo, hi = c["r_out"] / math.sin(math.pi / (2 * n)), c["r_b"] - c["r_out"]
            d = lo + (hi - lo) * u(0.06, 0.94, 3)
            c["s"] = 2.0 * (d - c["r_out"])
            c["k_p"] = draw(st.sampled_from([0.4, 0.4, 0.3, 0.5]))
        return c

    return make()


FLUIDS = [["Water", 0.0, 20.0, "mu", 3.0], ["Water", 0.0, 20.0, "k", 0.7], ["Water", 0.0, 20.0, "cp", 0.8], ["Water", 0.0, 20.0, "rho", 1.1], ["MEG", 25.0]]


def neighbours(c):
    """Heat exchangers that differ from c in one property only."""
    c = dict(U_TUBE, **c)
    out = [dict(c, **{k: round(c[k] * f, 9)}) for k, f in (("H", 1.1), ("D", 2.0), ("r_b", 1.1), ("k_s", 1.3), ("rc_s", 1.2), ("k_g", 0.8), ("rc_g", 1.2), ("rc_p", 1.3), ("eps", 100.0), ("flow", 0.7), ("ugt", 0.9))]
    out += [dict(c, fluid=f) for f in FLUIDS if f != c["fluid"]]
    if c["type"] == "coaxial":
        out.append(dict(c, k_p=[c["k_p"][0] * 0.8, c["k_p"][1]]))
        out.append(dict(c, k_p=[c["k_p"][0], c["k_p"][1] * 0.8]))
        for k in range(2):
            out.append(dict(c, r_in=[x * (0.97 if i == k else 1.0) for i, x in enumerate(c["r_in"])]))
    else:
        out += [dict(c, k_p=c["k_p"] * 0.8), dict(c, r_in=round(c["r_in"] * 0.97, 9)), dict(c, s=c["s"] * 0.97)]
    return out


def height_of(cfg, H):
    c = dict(cfg)
    c["H"] = H
    return c
