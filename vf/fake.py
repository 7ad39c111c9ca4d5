"""A stand-in for the simulation of ground heat exchangers: the temperatures of a field follow from a table of required heights.

The stand-in replaces the methods of the real GHE class (so that it does not matter how the code under test refers to the class) and compute_live_g_function (in every
module of ghedt that refers to it).  It keeps the contract of the real ones: a simulation at a height needs the g-functions for it, the flow is the one given.
"""
import contextlib
import copy
import sys

from vf.core import Inconclusive


class FakeG:
    def __init__(self, B, heights, m, xy, log_time):
        self.B, self.heights, self.m_flow, self.bore_locations, self.log_time = B, list(heights), m, xy, log_time
        self.g_lts = {h: [0.0] * len(log_time) for h in heights}
        self.r_b_values = {h: 0.075 for h in heights}
        self.D_values = {h: 2.0 for h in heights}

    def covers(self, H):
        if len(self.heights) == 1:
            return abs(H - self.heights[0]) / self.heights[0] < 0.001
        return True


class FakeBHE:
    def __init__(self, borehole, fluid, pipe, grout, soil, m):
        self.b = self.borehole = copy.deepcopy(borehole)
        self.fluid, self.pipe, self.grout, self.soil, self.m_flow_borehole = fluid, pipe, grout, soil, m

    def update_thermal_resistance(self, *a, **k):
        return 0.1

    compute_effective_borehole_resistance = update_thermal_resistance


def key(xy):
    return tuple((float(p[0]), float(p[1])) for p in xy)


class World:
    """The required height of every field: a field at height H exceeds the limits by amplitude (required / H - 1)."""

    def __init__(self, required, amplitude=4.0, side="max", radial=None):
        self.required = required
        self.amplitude = amplitude
        self.side = side
        self.created = []
        self.simulated = []
        self.sized = 0

    def excess(self, xy, H):
        return self.amplitude * (self.required[key(xy)] / H - 1.0)


@contextlib.contextmanager
def world(w):
    import ghedt as dt
    import ghedt.peak_load_analysis_tool as plat  # noqa: F401
    GHE = dt.ground_heat_exchangers.GHE
    Base = dt.ground_heat_exchangers.BaseGHE
    real_g = dt.gfunction.compute_live_g_function

    def init(self, V_flow_system, B_spacing, bhe_object, fluid, borehole, pipe, grout, soil, GFunction, sim_params, hourly_extraction_ground_loads):
        self.fieldType = "N/A"
        self.V_flow_system, self.B_spacing = V_flow_system, B_spacing
        self.GFunction, self.sim_params = GFunction, sim_params
        self.nbh = float(len(GFunction.bore_locations))
        self.V_flow_borehole = V_flow_system / self.nbh
        m = self.V_flow_borehole / 1000.0 * fluid.rho
        self.bhe_object = bhe_object
        self.bhe = self.bhe_eq = FakeBHE(borehole, fluid, pipe, grout, soil, m)
        self.hourly_extraction_ground_loads = hourly_extraction_ground_loads
        self.HPEFT, self.dTb = [], []
        self.fake_size = None
        w.created.append(self)

    def simulate(self, method="hybrid"):
        H = self.bhe.b.H
        if not self.GFunction.covers(H):
            raise ValueError("The interpolation requires two g-function curves if the requested B/H is not already computed.")
        e = w.excess(self.GFunction.bore_locations, H)
        sp = self.sim_params
        if w.side == "max":
            t = sp.max_EFT_allowable + e, sp.min_EFT_allowable - e + 5.0
        else:
            t = sp.max_EFT_allowable + e - 5.0, sp.min_EFT_allowable - e
        w.simulated.append((key(self.GFunction.bore_locations), H, method))
        self.HPEFT = [t[0], t[1]]
        return t

    def size(self, method="hybrid"):
        sp = self.sim_params
        h = min(max(w.required[key(self.GFunction.bore_locations)], sp.min_Height), sp.max_Height)
        for x in (sp.min_Height, h):
            if not self.GFunction.covers(x):
                raise ValueError("The interpolation requires two g-function curves if the requested B/H is not already computed.")
        self.bhe.b.H = h
        self.simulate(method)
        self.fake_size = h
        w.sized += 1

    def compute_g_functions(self):
        sp = self.sim_params
        g = self.GFunction
        self.GFunction = FakeG(g.B, [sp.min_Height, (sp.min_Height + sp.max_Height) / 2.0, sp.max_Height], self.bhe.m_flow_borehole, g.bore_locations, g.log_time)

    def live(B, H_values, r_b_values, D_values, m_flow_borehole, bhe_object, log_time, coordinates, fluid, pipe, grout, soil, **kw):
        return FakeG(B, H_values, m_flow_borehole, coordinates, log_time)

    undo = []
    for cls, name, f in ((GHE, "__init__", init), (GHE, "simulate", simulate), (GHE, "size", size), (Base, "compute_g_functions", compute_g_functions)):
        owner = cls
        undo.append((owner, name, owner.__dict__.get(name)))
        setattr(owner, name, f)
    if "compute_g_functions" in GHE.__dict__:
        undo.append((GHE, "compute_g_functions", GHE.__dict__["compute_g_functions"]))
        GHE.compute_g_functions = compute_g_functions
    for n, m in list(sys.modules.items()):
        if n == "ghedt" or n.startswith("ghedt."):
            for a, v in list(vars(m).items()):
                if v is real_g:
                    undo.append((m, a, v))
                    setattr(m, a, live)
    try:
        yield w
    except AttributeError as e:
        # the code asks the stand-in for something it does not have: nothing can be said
        if any(t in str(e) for t in ("FakeG", "FakeBHE", "'GHE' object")):
            raise Inconclusive(str(e))
        raise
    finally:
        for owner, name, v in undo:
            if v is None:
                delattr(owner, name)
            else:
                setattr(owner, name, v)
    if not w.created:
        raise Inconclusive("the stand-in was not used")
