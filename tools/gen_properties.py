"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewable)."""
import json, os
P = []


def add(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": observe, "hook_needed": None}})


PL = "ghedt/peak_load_analysis_tool/"

add("C01", "Field layouts contain exactly the boreholes of the named shape",
    "Every layout generator (rectangle, open rectangle, U, lopsided U, C, L, zoned rectangle) returns exactly the boreholes of its shape for the requested counts and spacings: the right number, each at its grid position, none missing, duplicated or misplaced. "
    "Interior boreholes of a zoned rectangle divide the perimeter's extent evenly and stay strictly inside it, and more interior boreholes than fit are rejected. "
    "Transposing a field mirrors it (x and y swapped), and transposing twice restores it.",
    ["inputs"], "all borehole counts per side >= 1, all positive spacings in x and y, all admissible interior counts, any origin",
    "No existing test calls a layout generator directly; the design tests reach square and near-square rectangles of one spacing only.",
    ["ghedt/coordinates.py"],
    [("layout generators", "ghedt/coordinates.py: rectangle, open_rectangle, C_shape, U_shape, lop_U, L_shape, zoned_rectangle"),
     ("transpose", "ghedt/coordinates.py: transpose_coordinates")],
    ["returned list of (x, y) pairs"])

add("C02", "Near-square and rectangular search domains are complete, ordered, on land",
    "The near-square domain is the sequence n x n and n x (n+1) for n from the lower to the upper bound, at the requested spacing, never larger than upper x upper. "
    "The uniform-spacing rectangular domain starts with one borehole, grows strictly in number of boreholes through a full line and full rows up to the densest field, uses spacings between the minimum and maximum (for complete lines and rectangles), spans the longer side of the land completely, and never places a borehole off the land, for either orientation of the land. "
    "Invalid bounds are rejected with an error.",
    ["inputs"], "all bounds lower <= upper; all land sizes and spacing limits for which a whole number of spacings fits the long side, both orientations",
    "The suite selects from one near-square domain (one spacing, one size) and never builds a rectangular domain or a land that is wider than long.",
    ["ghedt/domains.py", "ghedt/design.py"],
    [("near-square domain", "ghedt/domains.py: square_and_near_square"), ("rectangular domain", "ghedt/domains.py: rectangular")],
    ["returned list of fields", "Design.coordinates_domain"])

add("C03", "Bi-rectangular domains grow over the land within both spacing limits",
    "Each inner domain starts at one borehole and grows strictly, borehole line by borehole line, to the densest admissible rectangle; every complete rectangle spans the whole land, with spacings at least the minimum and at most the maximum of each axis. "
    "The nested domain contains one inner domain for every admissible number of rows on the shorter side, from the fewest to the most. "
    "Swapping length and width (and their spacing limits) transposes every field.",
    ["inputs"], "all land sizes, minimum spacings and per-axis maximum spacings that admit at least one whole division of both sides, both orientations",
    "No test builds a bi-rectangular domain; the examples use one land size with length > width.",
    ["ghedt/domains.py", "ghedt/design.py"],
    [("bi-rectangular domain", "ghedt/domains.py: bi_rectangular"), ("nested domain", "ghedt/domains.py: bi_rectangle_nested")],
    ["returned nested lists of fields", "Design.coordinates_domain_nested"])

add("C04", "Bi-zoned domains step from one borehole to full rectangles on the land",
    "The first bi-zoned inner domain grows one borehole at a time from a single borehole over a line, an L, a U and an open rectangle to zoned rectangles; every inner domain ends in the completely filled rectangle of its perimeter and adds one interior row or column at a time. "
    "Successive inner domains alternately add a borehole to the perimeter's two sides until both minimum spacings are reached. "
    "Every field stays on the land, with perimeter spacing within the limits, and swapping length and width transposes every field.",
    ["inputs"], "all land sizes and spacing limits with at least three boreholes on each side, both orientations; all perimeter counts >= 3 for a single zoned domain",
    "No test builds a bi-zoned domain; the example uses one land size with length > width.",
    ["ghedt/domains.py", "ghedt/coordinates.py"],
    [("zoned domain", "ghedt/domains.py: zoned_rectangle_domain"), ("nested zoned domain", "ghedt/domains.py: bi_rectangle_zoned_nested")],
    ["returned nested lists of fields"])

add("C05", "Land constraints keep boreholes on the property and off buildings",
    "Removing boreholes by a polygon removes exactly those on the requested side of it (boundary points kept or removed as requested), keeps the remaining ones in place and order, and does nothing when there is no polygon. "
    "A domain built from a property boundary and an optional building contains only boreholes on the property and outside of the building, and loses no candidate borehole that is allowed, and no field that still has boreholes. "
    "Each inner domain is ordered by number of boreholes, with ties keeping their order.",
    ["inputs"], "all simple polygons with non-negative coordinates (convex or not), with or without a building, all spacing limits admitting a division, points inside, outside and on the boundary",
    "No test uses a polygon; the example uses one rectangular building and one land.",
    ["ghedt/feature_recognition.py", "ghedt/domains.py"],
    [("point filter", "ghedt/feature_recognition.py: remove_cutout, scale_coordinates"), ("bounding rectangle", "ghedt/feature_recognition.py: determine_largest_rectangle"),
     ("constrained domain", "ghedt/domains.py: polygonal_land_constraint, reorder_domain")],
    ["returned coordinates and domains"])

add("C06", "Hourly loads split into rejection/extraction and monthly statistics exactly",
    "Splitting an hourly ground-load profile gives non-negative rejection and extraction profiles in kW whose difference restores the input, with at most one of them non-zero in any hour. "
    "For every calendar month the reported total, average and peak are those of that month's hours, and the peak day is the day of the month on which that peak first occurs (none for a month without load). "
    "A profile that does not cover exactly one year is rejected.",
    ["inputs"], "all one-year hourly profiles (any sign pattern, zero months, peaks at any hour including the first and last of a day, month or year), both units",
    "The suite uses one synthetic profile and one office building; peaks never fall in the first hour of a day and no month is empty.",
    [PL + "ground_loads.py"],
    [("split", PL + "ground_loads.py: HybridLoad.split_heat_and_cool"), ("monthly statistics", PL + "ground_loads.py: Loads.split_load_by_month"),
     ("report", PL + "ground_loads.py: HybridLoad.create_dataframe_of_peak_analysis")],
    ["returned lists", "monthly table of the hybrid load object"])

add("C07", "Hybrid load sequence conserves monthly energy, covers the horizon in order",
    "The sequence of load periods built from the monthly statistics has strictly increasing end times, starts at the first hour of the start month, has a boundary at every month end and ends with the end month, and the loads of each month integrate to that month's net ground energy. "
    "In the first and the last twelve months each non-zero rejection (positive) and extraction (negative) peak appears in its month with its magnitude and duration, centred on its peak day when there is room, unless both fall on the same day; every other period of a month has one common rate. "
    "The step-load series accumulates to the load series.",
    ["inputs", "configurations"], "all one-year profiles; all start and end months over any horizon of one month to several years",
    "Tests compare sizing results of one profile over one horizon starting in January; overlapping, month-end, same-day and empty-month peaks never occur.",
    [PL + "ground_loads.py"],
    [("sequence", PL + "ground_loads.py: HybridLoad.process_monthly_loads"), ("peak placement", PL + "ground_loads.py: Loads.peak_hour_range, peak_energy"),
     ("calendar", PL + "ground_loads.py: monthdays, firstmonthhour, lastmonthhour")],
    ["load, hour and sfload arrays of the hybrid load object"],
    [("load/hour", "load of a period and its ending hour, after two leading zero entries", PL + "ground_loads.py: HybridLoad")])

add("C08", "Peak durations reproduce the fluid temperature rise of the peak days",
    "For every month with a load, the reported peak duration is the time for which the constant monthly peak (less the month's average) has to be applied to cause the largest fluid temperature rise caused by the actual loads of the two days around the peak (each hour's excess over the month's average, weighted with its share of the peak), in the short-time-step response of the borehole. "
    "It is always greater than 0 and at most 48 hours, is negligible for a month without load or whose two days never exceed the average, and is found for every valid profile without failing. "
    "It does not depend on the loads of other days (except through the month's average and peak) and does not change when all loads are scaled by a common factor.",
    ["inputs"], "all one-year profiles of one sign; several borehole heat exchangers (short-time-step responses, resistances)",
    "One synthetic profile and one office profile pin twelve durations each; profiles whose two days reach into another month, exceed the monthly peak or are constant are not covered.",
    [PL + "ground_loads.py"],
    [("two-day window", PL + "ground_loads.py: Loads.process_two_day_loads"), ("duration search", PL + "ground_loads.py: Loads.find_peak_durations, perform_current_month_simulation, simulate_hourly")],
    ["peak duration in the monthly table"])

add("C09", "Simulated fluid temperatures equal temporal superposition of the loads",
    "The entering fluid temperatures of a simulation equal, at the end of every load period, the undisturbed ground temperature plus the superposition of all load changes so far through the combined g-function, plus the borehole resistance and fluid terms, for the hybrid and for the hourly method; the reported extremes are those of the series. "
    "A load never influences earlier temperatures, zero load leaves the ground temperature, temperature changes are linear in the load, and extraction (positive in the input profile) cools the ground while rejection heats it. "
    "The simulation covers exactly the hours of the start month to the end month, whatever the month or number of years.",
    ["inputs", "configurations"], "all load profiles, start and end months, heights within the computed range, borehole counts, flow rates and borehole heat exchanger types",
    "Tests pin the extremes for one load profile, one field, one horizon; causality, linearity, partial years and later start months are not reached.",
    ["ghedt/ground_heat_exchangers.py"],
    [("superposition", "ghedt/ground_heat_exchangers.py: BaseGHE._simulate_detailed"), ("load assembly", "ghedt/ground_heat_exchangers.py: GHE.simulate"),
     ("excess temperature", "ghedt/ground_heat_exchangers.py: BaseGHE.cost")],
    ["GHE.HPEFT, GHE.dTb, return value of simulate"])

add("C10", "Sizing returns the shallowest admissible height that meets the limits",
    "After sizing, the height lies between the minimum and maximum allowed: where the excess temperature changes sign it is the height at which the limiting fluid temperature exactly meets its limit; an undersized field gets the maximum height and an oversized one the minimum, each with the matching warning and only then. "
    "The stored temperatures are those of the returned height, and the result does not depend on the height before sizing, on earlier simulations or on sizing again. "
    "The excess temperature used is the worse of the two limit violations and negative exactly when both limits hold.",
    ["inputs", "histories"], "all load profiles and limits (rejection- or extraction-dominated, over- and undersized), both simulation methods, all sequences of earlier calls",
    "Tests size three heat exchangers of one field within the bounds; the bounds, the warnings and repeated use are not covered.",
    ["ghedt/ground_heat_exchangers.py", PL + "equivalance.py"],
    [("sizing", "ghedt/ground_heat_exchangers.py: GHE.size"), ("root finding", PL + "equivalance.py: solve_root"), ("excess", "ghedt/ground_heat_exchangers.py: BaseGHE.cost")],
    ["GHE.bhe.b.H, GHE.HPEFT, warnings"])

add("C11", "Borehole resistance depends only on the current state, not on the history",
    "For single U-tubes, multiple U-tubes (series and parallel) and coaxial pipes, the pipe, fluid and effective borehole thermal resistances equal those of the multipole model for the current flow rate, fluid, geometry and materials. "
    "After any sequence of changes of flow rate, fluid, height or grout, the values equal those of a newly created heat exchanger in that state. "
    "Parallel flow divides equally over all U-tubes, series flow does not, and the reported Reynolds numbers follow the definition for pipes and annuli.",
    ["inputs", "histories"], "all feasible geometries, fluids, flow rates (laminar to turbulent), one to three U-tubes, all sequences of updates",
    "Tests pin one geometry per type at one flow rate, once after creation; three U-tubes, series flow and updates are not covered.",
    [PL + "borehole_heat_exchangers.py", PL + "media.py"],
    [("resistances", PL + "borehole_heat_exchangers.py: BasePipe, CoaxialBase compute_resistances"), ("updates", PL + "borehole_heat_exchangers.py: update_thermal_resistance, compute_effective_borehole_resistance"),
     ("Reynolds", PL + "borehole_heat_exchangers.py: compute_Reynolds, compute_Reynolds_concentric")],
    ["returned resistances and stored R_f, R_p, h_f"])

add("C12", "The equivalent single U-tube preserves volumes, flow and resistance",
    "The single U-tube made equivalent to a multiple U-tube or coaxial heat exchanger has the same fluid volume, pipe volume, mass flow rate, fluid and height, the same pipe-plus-fluid resistance, and the same effective borehole resistance, whenever pipe and grout conductivities within the search limits can achieve it (otherwise the closest limit). "
    "Its pipes fit in its borehole without overlapping. "
    "The original heat exchanger and its inputs are left unchanged, and a single U-tube is its own equivalent.",
    ["inputs"], "all feasible double and triple U-tube and coaxial geometries, flow rates, grouts and fluids",
    "Tests pin the result for one double U-tube and one coaxial pipe.",
    [PL + "equivalance.py"],
    [("equivalence", PL + "equivalance.py: compute_equivalent, multiple_to_single, coaxial_to_single, equivalent_single_u_tube"), ("matching", PL + "equivalance.py: match_effective_borehole_resistance, solve_root")],
    ["returned heat exchanger"])

add("C13", "Short-time-step response and combined g-function follow the radial model",
    "The short-time-step response equals the implicit one-dimensional radial finite-volume solution for the equivalent single U-tube, at two-minute steps over at least 49 hours and up to ln(t/ts) = -8.6, increases with time, and depends only on the heat exchanger it was last computed for. "
    "The combined g-function uses the short-time-step values before the first long-time-step point, and the long-time-step values, corrected to the actual borehole radius, from there on, over strictly increasing times. "
    "Both parts are reproduced exactly at their own points.",
    ["inputs", "histories"], "all single U-tube geometries, materials, flow rates and heights; all recomputation sequences; all long-time-step curves",
    "Tests only see the response through pinned simulated temperatures of three heat exchangers.",
    [PL + "radial_numerical_borehole.py", "ghedt/ground_heat_exchangers.py", "ghedt/gfunction.py"],
    [("radial model", PL + "radial_numerical_borehole.py: RadialNumericalBH"), ("combination", "ghedt/ground_heat_exchangers.py: BaseGHE.combine_sts_lts, grab_g_function"), ("radius correction", "ghedt/gfunction.py: GFunction.borehole_radius_correction")],
    ["returned lntts and g arrays; interpolation object"])

add("C14", "g-function interpolation reproduces its curves, independent of history",
    "Interpolating at the B/H of a computed curve returns that curve, its borehole radius and burial depth; in between, the result is the linear, quadratic, cubic or Lagrange interpolation over height (by default the best the number of curves allows, reduced when there are too few). "
    "Outside of the computed heights it extrapolates with a warning; a single curve is used only for its own B/H and otherwise rejected. "
    "The result never depends on earlier interpolations, and loading a g-function database keeps every curve, radius, depth and location with the depth defaulting to 2 m; rescaling the field's spacing scales every coordinate.",
    ["inputs", "histories"], "all sets of one to eight curves in any order, all requested B/H (inside, at, near and outside of the range), all interpolation kinds and call sequences",
    "Tests only interpolate three curves at heights in range, once, with the default kind.",
    ["ghedt/gfunction.py"],
    [("interpolation", "ghedt/gfunction.py: GFunction.g_function_interpolation"), ("database", "ghedt/gfunction.py: GFunction.configure_database_file_for_usage"), ("rescaling", "ghedt/gfunction.py: GFunction.correct_coordinates, borehole_radius_correction")],
    ["returned curve, radius, depth, height"],
    [("interpolation table", "interpolants kept between calls", "ghedt/gfunction.py: GFunction.interpolation_table")])

add("C15", "Computed g-functions are those of the requested field and boundary condition",
    "A computed g-function equals, for every requested height, that of the requested borehole positions, radius, burial depth, soil diffusivity, flow rate per borehole and boundary condition (mixed inlet, uniform wall temperature or uniform heat rate) at the dimensionless times scaled with that height. "
    "It is stored under its height together with its radius, depth, spacing and positions. "
    "The inputs are not changed.",
    ["inputs", "configurations"], "all small fields, heights, radii, depths, flow rates, heat exchanger types, segment counts and options, all three boundary conditions",
    "Tests compute one field with the default options and compare only simulated extremes.",
    ["ghedt/gfunction.py"],
    [("calculation", "ghedt/gfunction.py: calculate_g_function, compute_live_g_function")],
    ["returned GFunction object"])

add("C16", "The one-dimensional search selects the smallest field that meets the limits",
    "The search over a domain returns a field of that domain whose excess temperature at the maximum height is not positive, and the smallest such field when the excess decreases along the domain; if the first field can be sized between the height limits it is returned. "
    "If all fields are sufficient (even at the minimum height) or none is, it is reported as an error and nothing is selected. "
    "The heat exchanger left by the search is the selected field at the maximum height, with the flow rate per borehole or per system applied as requested.",
    ["inputs"], "all domains (1 to hundreds of fields), all excess-temperature sequences decreasing in field size and height, both flow definitions",
    "The design test runs one domain with one load profile.",
    ["ghedt/search_routines.py"],
    [("bisection", "ghedt/search_routines.py: Bisection1D.search"), ("flow", "ghedt/search_routines.py: Bisection1D.retrieve_flow, initialize_ghe")],
    ["selection_key, selected_coordinates, ghe of the search object"],
    [("calculated_temperatures", "excess by index of the evaluated fields", "ghedt/search_routines.py: Bisection1D")])

add("C17", "Nested searches select a sufficient field from the right inner domain",
    "The nested bisection selects the first inner domain whose largest field is sufficient and in it the smallest sufficient field. "
    "The zoned search compares up to seven successive inner domains by the total drilling of their sized selections, stops when it grows, and returns the field with the least total drilling, sized so that it meets the limits. "
    "Any selected field belongs to the domain and is sufficient; inputs for which no field or every field is sufficient are rejected.",
    ["inputs"], "all nested domains and all excess-temperature functions that decrease with field size, height and inner domain",
    "No test runs a nested search.",
    ["ghedt/search_routines.py"],
    [("nested bisection", "ghedt/search_routines.py: Bisection2D"), ("zoned search", "ghedt/search_routines.py: BisectionZD.search_successive")],
    ["selection_key, selected_coordinates, ghe of the search object"])

add("C18", "A found design is the smallest in its domain that meets the limits",
    "For every routine, a found design is a field on the given land that, at the height it is reported or sized with, keeps the fluid temperature of an independent new simulation within the limits, and no smaller field of a one-dimensional domain does at the maximum height. "
    "Finding the design again, or from the same inputs stored and read back, gives the same field and height. "
    "The reported design runs at the flow that was specified: the given flow in every borehole, or the given system flow divided equally over its boreholes. "
    "A request that lacks a constraint its routine needs, or names an unknown routine, is rejected.",
    ["inputs", "histories"], "all load profiles, land sizes, spacing limits and temperature limits of small fields; the four routines; the three heat exchanger types",
    "The suite finds one near-square design; no other routine is run.",
    ["ghedt/design.py", "ghedt/search_routines.py", "ghedt/ground_heat_exchangers.py", "ghedt/media.py"],
    [("design", "ghedt/design.py: Design.find_design"), ("constraints", "ghedt/media.py: GeometricConstraints.check_inputs")],
    ["search object returned by find_design"])

add("C19", "Stored inputs and exported results restore what was stored, exactly",
    "An input stored in a file and read back behaves exactly like the original, and a JSON document written and read back is equal. "
    "An exported design states the height, number of boreholes, equivalent single U-tube and g-function of the design: its g-function pairs are points of the combined g-function at strictly increasing times and include every long-time-step value, however many there are. "
    "Exporting or printing a design does not change it, and the printed report states its height, spacing, extremes, Reynolds numbers and monthly loads.",
    ["inputs"], "all designs (height >= 20 m), heat exchanger types, fields and file names; any JSON-representable document",
    "No test writes or reads a file.",
    ["ghedt/utilities.py", "ghedt/search_routines.py", "ghedt/ground_heat_exchangers.py"],
    [("input files", "ghedt/utilities.py: create_input_file, read_input_file, js_dump, js_load, create_if_not"), ("export", "ghedt/search_routines.py: oak_ridge_export"), ("report", "ghedt/ground_heat_exchangers.py: GHE.__repr__")],
    ["files written, text returned"])

add("C20", "Heat exchangers built from shared inputs do not influence each other",
    "Creating, simulating, sizing, reporting or searching with a ground heat exchanger never changes the objects it was given (boreholes, pipes, soils, grouts, fluids, loads, coordinates, constraints, g-functions as seen by others). "
    "Any interleaving of operations on several heat exchangers made from shared inputs gives each the results it would have alone. "
    "Repeating an operation on unchanged inputs gives the same result.",
    ["histories"], "all interleavings of creation, simulation, sizing, interpolation and reporting on two or three heat exchangers that share any of their inputs",
    "Each test builds fresh inputs for one heat exchanger and uses it once.",
    ["ghedt/ground_heat_exchangers.py", "ghedt/gfunction.py", PL + "equivalance.py", "ghedt/domains.py"],
    [("copying of inputs", "ghedt/ground_heat_exchangers.py: BaseGHE.__init__"), ("copying for the equivalent", PL + "equivalance.py: equivalent_single_u_tube"), ("interpolation table", "ghedt/gfunction.py: GFunction.g_function_interpolation")],
    ["results and inputs after each operation"])

add("C21", "Land and pipe geometry helpers are exact and mutually consistent",
    "The number of boreholes along a side, the side length and the spacing are mutually consistent, also when the length is a whole number of spacings; rectangle outlines and polygon areas are exact for any vertex order, start or position, and the spacing of a field is the distance of its first two boreholes but at least the borehole radius. "
    "Pipes are placed evenly around the centre with the requested shank spacing between opposite pipes, so that the legs of one U-tube never overlap. "
    "The bracketed root finder returns the root of a function that changes sign between its bounds, and the bound closest to meeting it otherwise (the upper one if the function is negative at both). Bracketing, sign, mean percentage error (positive when the prediction is higher) and calendar helpers follow their definitions.",
    ["inputs"], "all positive lengths, spacings and counts; all simple polygons; all shank spacings, pipe radii and pipe counts; all months of any horizon",
    "Only three pipe placements are used by tests; none of the other helpers is tested.",
    ["ghedt/utilities.py", PL + "media.py", PL + "ground_loads.py", "ghedt/domains.py"],
    [("land arithmetic", "ghedt/utilities.py: number_of_boreholes, length_of_side, spacing_along_length, polygonal_area, make_rectangle_perimeter, borehole_spacing"), ("pipes", PL + "media.py: Pipe.place_pipes"), ("calendar", PL + "ground_loads.py: monthdays, firstmonthhour, lastmonthhour, number_to_month, monthindex")],
    ["returned values"])

add("C22", "Hourly representations place the monthly averages and peaks on their days",
    "The hourly representation of the monthly statistics covers exactly one year: each month has its average in every hour except for its peak, which has the reported magnitude and the rounded duration, lies within the month, and is centred on noon of its peak day when there is room. "
    "The synthetic doubling profile has the average i and peak 2i (extraction) in month i and the mirrored values for rejection, in the requested unit, with a peak of i hours. "
    "Reading the monthly statistics of the synthetic profile back gives those peaks and days.",
    ["inputs"], "all one-year profiles, months with and without load, short and long peaks near month boundaries; both units",
    "Only the synthetic profile in one unit is used, and the hourly representation is never called by the suite.",
    [PL + "ground_loads.py"],
    [("hourly representation", PL + "ground_loads.py: HybridLoad.hourly_load_representation"), ("synthetic profile", PL + "ground_loads.py: synthetic_load_function, create_synthetic_doubling_load_profile")],
    ["returned lists"])

add("C23", "Plots show exactly the data of their objects",
    "Every plotting function draws exactly the data it was given, without changing it: the borehole positions of a field, of each field of a domain (one numbered file per field in the requested folder), the closed outlines of the property and building, one labelled curve per height of a g-function set with its B/H, the hourly extraction (positive) and rejection (negative) of the loads in their hours, and for a month the two-day fluid temperatures of that month under the name of the side they belong to, with the peak duration marked. "
    "The symmetric-log minor ticks divide each decade and the linear part evenly into the requested number of intervals.",
    ["inputs"], "all fields, domains, outlines and g-function sets; all one-year profiles, months and sides; symmetric-log views of at least one decade",
    "No test draws anything.",
    ["ghedt/coordinates.py", "ghedt/domains.py", "ghedt/gfunction.py", PL + "ground_loads.py", "ghedt/utilities.py"],
    [("fields", "ghedt/coordinates.py: visualize_coordinates; ghedt/domains.py: visualize_domain"), ("g-functions and land", "ghedt/gfunction.py: GFunction.visualize_g_functions, visualize_borefield, visualize_area_and_constraints"), ("loads", PL + "ground_loads.py: HybridLoad.visualize_hourly_heat_extraction, visualize_fluid_simulation_results"), ("ticks", "ghedt/utilities.py: MinorSymLogLocator")],
    ["lines, markers, texts and labels of the figures; files written"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
