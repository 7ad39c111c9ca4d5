"""Synthetic long-time-step g-functions and ground heat exchangers, and the reference simulation."""
import math

import numpy as np

from vf import heat, loads

LOG_TIME = [-8.5, -7.8, -7.2, -6.5, -5.9, -5.2, -4.5, -3.963, -3.27, -2.864, -2.577, -2.171, -1.884, -1.191, -0.497, -0.274,
            -0.051, 0.196, 0.419, 0.642, 0.873, 1.112, 1.335, 1.679, 2.028, 2.275, 3.003]


def softplus(x):
    return np.logaddexp(0.0, x)


def curve(H, r_b, B, n, strength=1.0):
    """A g-function of the right shape: a finite line plus the interaction of n boreholes."""
    x = np.asarray(LOG_TIME)
    g = math.log(H / (2.0 * r_b)) - 0.5 * softplus(-x) - 0.1 * softplus(x - 2)
    late = (n - 1) ** 0.8 * 0.35 * strength * softplus(1.3 * (x + 1.0 + 2.0 * math.log(max(H / (20.0 * max(B, 1.0)), 0.2)) * 0.5)) / (1.0 + 0.05 * B)
    return (g + late).tolist()


def coordinates(nx, ny, B):
    return [(i * B, j * B) for i in range(nx) for j in range(ny)]


def gfunction(spec):
    """spec: B, nx, ny, heights, r_b (list), strength."""
    import ghedt as dt
    hs = [float(h) for h in spec["heights"]]
    n = spec["nx"] * spec["ny"]
    g = {h: curve(h, r, spec["B"], n, spec.get("strength", 1.0)) for h, r in zip(hs, spec["r_b"])}
    return dt.gfunction.GFunction(B=spec["B"], r_b_values={h: r for h, r in zip(hs, spec["r_b"])}, D_values={h: 2.0 for h in hs},
                                  g_lts=g, log_time=list(LOG_TIME), bore_locations=coordinates(spec["nx"], spec["ny"], spec["B"]))


def make(case, q=None):
    """The ground heat exchanger of a case: bhe (configuration), field (g-function), load, start, end, limits."""
    import ghedt as dt
    import ghedt.peak_load_analysis_tool as plat
    cls, m, fl, b, pipe, grout, soil = heat.parts(case["bhe"])
    f = case["field"]
    n = f["nx"] * f["ny"]
    lim = case.get("limits", [35.0, 5.0, 135.0, 60.0])
    sp = plat.media.SimulationParameters(case["start"], case["end"], *lim)
    if q is None:
        q = loads.expand(case["load"])
    flow = dict(heat.U_TUBE, **case["bhe"])["flow"]
    return dt.ground_heat_exchangers.GHE(flow * n, f["B"] * f.get("ratio", 1.0), cls, fl, b, pipe, grout, soil, gfunction(f), sp, q)


# ---- reference ------------------------------------------------------------------------------------------------------
def search_of(ghe, coordinates):
    """A search that has ended with the given ground heat exchanger on the given field."""
    import ghedt as dt
    s = dt.search_routines.Bisection1D.__new__(dt.search_routines.Bisection1D)
    coordinates = [tuple(p) for p in coordinates]
    s.ghe, s.selected_coordinates, s.selection_key = ghe, coordinates, 0
    s.coordinates_domain, s.calculated_temperatures = [coordinates], {0: 0.0}
    s.V_flow, s.flow, s.method = ghe.V_flow_system / len(coordinates), "borehole", "hybrid"
    s.log_time, s.bhe_object, s.sim_params = ghe.GFunction.log_time, ghe.bhe_object, ghe.sim_params
    s.hourly_extraction_ground_loads, s.max_iter, s.disp = ghe.hourly_extraction_ground_loads, 15, False
    return s


def superposes(ghe):
    """The signature of _simulate_detailed(loads, times, g) -> (temperatures, changes) if the heat exchanger has one, so that a stand-in can take its place."""
    import inspect
    f = getattr(ghe, "_simulate_detailed", None)
    try:
        sig = inspect.signature(f)
        if len(sig.parameters) != 3:
            return None
        r = f(np.array([1.0, 2.0]), np.array([1.0, 2.0]), lambda x: 0.0 * np.asarray(x, dtype=float))
        return sig if isinstance(r, tuple) and len(r) == 2 and len(r[0]) == 2 and len(r[1]) == 2 else None
    except Exception:
        return None


def reference_bhe(cfg):
    """(heat exchanger, equivalent single U-tube, its short-time-step response), all new."""
    import ghedt.peak_load_analysis_tool as plat
    b = heat.bhe(cfg)
    eq = plat.equivalance.compute_equivalent(heat.bhe(cfg))
    r = plat.radial_numerical_borehole.RadialNumericalBH(eq)
    r.calc_sts_g_functions(eq)
    return b, eq, r


def poly_interp(xs, ys, x):
    """The interpolation used by default: linear for two, quadratic spline for three and four, cubic spline for more."""
    from scipy.interpolate import make_interp_spline
    k = {1: 0, 2: 1, 3: 2, 4: 2}.get(len(xs), 3)
    if k == 0:
        return np.asarray(ys)[0]
    ys = np.asarray(ys, dtype=float)
    return make_interp_spline(np.asarray(xs, dtype=float), ys, k=k)(x)


def reference_g(case, H, radial):
    """(x, g): the combined g-function at height H."""
    f = case["field"]
    hs = [float(h) for h in f["heights"]]
    n = f["nx"] * f["ny"]
    ys = [curve(h, r, f["B"], n, f.get("strength", 1.0)) for h, r in zip(hs, f["r_b"])]
    h = H / f.get("ratio", 1.0)          # the same ratio of spacing to height
    for e in (min(hs), max(hs)):
        if abs(h - e) < 1e-6:
            h = e
    g = np.asarray(poly_interp(hs, ys, h), dtype=float)
    rb = float(poly_interp(hs, f["r_b"], h))
    g = g - math.log(dict(heat.U_TUBE, **case["bhe"])["r_b"] / rb)
    xs, gs = np.asarray(radial.lntts, dtype=float), np.asarray(radial.g, dtype=float)
    keep = xs < LOG_TIME[0]
    return np.concatenate((xs[keep], LOG_TIME)), np.concatenate((gs[keep], g))


def eft(case, H, hours, q_total, b, radial, uniform=False):
    """Entering fluid temperatures at the end of each period: q_total (W, rejection positive) ends at hours[i]."""
    c = dict(heat.U_TUBE, **case["bhe"])
    n = case["field"]["nx"] * case["field"]["ny"]
    x, g = reference_g(case, H, radial)
    alpha = c["k_s"] / c["rc_s"]
    ts = H * H / (9.0 * alpha)
    fl = heat.fluid(c)
    m = c["flow"] / 1000.0 * fl.rho
    Rb = b.effective_borehole_thermal_resistance(m, fl.cp)
    q = np.concatenate(([0.0], np.asarray(q_total, dtype=float))) / n
    dq = np.diff(q)
    t = np.concatenate(([0.0], np.asarray(hours, dtype=float)))
    k2 = 2.0 * math.pi * c["k_s"] * H

    def gt_(dt_h):
        return np.interp(np.log(dt_h * 3600.0 / ts), x, g)

    if uniform:
        gg = gt_(np.arange(1, len(t)))
        from scipy.signal import fftconvolve
        dT = fftconvolve(dq, gg)[:len(dq)] / k2
    else:
        dT = np.array([np.dot(dq[:i], gt_(t[i] - t[:i])) for i in range(1, len(t))]) / k2
    return c["ugt"] + dT + q[1:] / H * Rb - q[1:] / (2.0 * m * fl.cp), dT


def hybrid_periods(case, q, eq, radial):
    """(hours from the start, W of rejection) of a new hybrid load."""
    import ghedt.peak_load_analysis_tool as plat
    rej, ext = loads.split(q)
    h = plat.ground_loads.HybridLoad(rej, ext, eq, radial, plat.media.SimulationParameters(case["start"], case["end"], 35.0, 5.0, 135.0, 60.0))
    hour = np.asarray(h.hour, dtype=float)
    return hour[2:] - hour[1], np.asarray(h.load, dtype=float)[2:] * 1000.0


def merged(hours, w):
    """Periods without those that rounding alone creates (shorter than 1e-6 h)."""
    keep = np.diff(np.concatenate(([0.0], hours))) > 1e-6
    return hours[keep], w[keep]


def agreed(periods, ghe):
    """The periods of the heat exchanger itself where they are the expected ones but for periods created by rounding."""
    hl = getattr(ghe, "hybrid_load", None)
    hour, load = np.asarray(getattr(hl, "hour", []), dtype=float), np.asarray(getattr(hl, "load", []), dtype=float)
    if len(hour) < 3 or len(hour) != len(load) or len(hour) - 2 == len(periods[0]):
        return periods
    own = hour[2:] - hour[1], load[2:] * 1000.0
    a, b = merged(*own), merged(*periods)
    if len(a[0]) == len(b[0]) and np.allclose(a[0], b[0], rtol=1e-9, atol=1e-6) and np.allclose(a[1], b[1], rtol=1e-6, atol=1e-6):
        return own
    return periods


def month_start(i):
    y, m = divmod(i - 1, 12)
    return 8760 * y + loads.FIRST[m + 1]


def hourly_periods(case, q):
    a, b = month_start(case["start"]), month_start(case["end"] + 1)
    qq = np.asarray(q * (b // 8760 + 1))[a:b]
    return np.arange(1, b - a + 1), -qq


# ---- generators -----------------------------------------------------------------------------------------------------
def fields(heights=None):
    from hypothesis import strategies as st

    @st.composite
    def make_(draw):
        f = {"B": draw(st.sampled_from([5.0, 6.0, 4.45, 8.0, 3.5])), "nx": draw(st.integers(1, 6)), "ny": draw(st.integers(1, 6)),
             "strength": draw(st.sampled_from([1.0, 0.3, 2.0]))}
        if heights is not None:
            f["heights"] = list(heights)
        else:
            f["heights"] = draw(st.sampled_from([[60.0, 97.5, 135.0], [60.0, 97.5, 135.0], [40.0, 140.0], [24.0, 48.0, 96.0, 192.0, 384.0], [50.0, 90.0, 120.0, 160.0]]))
        base = draw(st.sampled_from([0.075, 0.075, 0.06]))
        f["r_b"] = [base if draw(st.integers(0, 3)) else base * 1.1 for _ in f["heights"]]
        return f

    return make_()
