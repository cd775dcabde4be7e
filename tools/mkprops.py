"""Writes properties.jsonl (the one place where the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["foxes/" + f for f in files], mechanism=[dict(name=n, where="foxes/" + w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("P01", "Wind directions and wind vectors convert consistently",
 "Converting a wind direction in degrees (where the wind comes from, 0 = north, 90 = east) and a speed into a wind vector gives a vector of that length pointing where the wind blows to, and converting that vector (or the unit direction vector) back returns the same direction within [0, 360), whichever array axis holds the components. The difference between two directions in [0, 360] is the second minus the first modulo 360, reported within [-180, 180].",
 ["inputs"], "all directions and speeds, all array shapes and component axes",
 "The tests only run whole farms with a handful of wind directions; they never look at the conversions for arbitrary angles, at the wrap around or at other component axes.",
 ["utils/wind_dir.py"], [("wd2wdvec/wd2uv/uv2wd/wdvec2wd/delta_wd", "utils/wind_dir.py")], ["foxes.utils"])

prop("P02", "Results do not depend on how work is split into chunks",
 "Splitting the states and the evaluation points into chunks covers each of them exactly once, in order and without empty chunks, for every requested chunk size and number of workers, and the assembled farm and point results hold each chunk's result at the position of its own states and points. Farm results and point results are therefore the same for every chunk size and for the single-chunk, the sequential, the thread and the process engines.",
 ["configurations", "inputs"], "all numbers of states, points and processes, all chunk size settings, all engines available",
 "The tests use one or two fixed chunk sizes on fixed farms and do not compare chunkings with each other.",
 ["core/engine.py", "engines/single.py", "engines/numpy.py", "engines/pool.py", "engines/default.py", "engines/futures.py", "engines/multiprocess.py"],
 [("calc_chunk_sizes, get_chunk_input_data, combine_results", "core/engine.py"), ("run_calculation", "engines/pool.py"), ("run_calculation", "engines/numpy.py"), ("run_calculation", "engines/single.py")],
 ["farm_results", "point_results"])

prop("P03", "Turbines are processed in downwind order and reported in farm order",
 "For every state the processing order is a permutation of all turbines along which the downstream coordinate never decreases. Per-turbine data sorted into that order and sorted back is unchanged, so that every per-turbine result is reported at its own turbine's index.",
 ["inputs", "configurations"], "all layouts, wind directions, numbers of states and turbines; the wind directions of the states may differ from turbine to turbine",
 "The tests use regular rows and few wind directions, where order mix-ups of single states hardly show.",
 ["models/wake_frames/rotor_wd.py", "models/wake_frames/farm_order.py", "models/wake_frames/yawed_wakes.py", "core/wake_frame.py", "algorithms/downwind/models/init_farm_data.py", "algorithms/downwind/models/reorder_farm_output.py"],
 [("calc_order", "models/wake_frames/rotor_wd.py"), ("InitFarmData.calculate", "algorithms/downwind/models/init_farm_data.py"), ("ReorderFarmOutput.calculate", "algorithms/downwind/models/reorder_farm_output.py")],
 ["farm_results"])

prop("P04", "Wake superposition follows its rule and ignores the order of wakes",
 "Every wind speed and turbulence superposition combines the contributions of the wakes according to its rule (sum, root of the sum of squares, root of the sum of powers, largest, product of remaining fractions), with each wind speed contribution being the relative deficit scaled by its reference wind speed. Adding a wake changes only the points selected for it, the order in which wakes are added is irrelevant, and no or vanishing contributions leave the ambient value unchanged. Optional limits bound the resulting total wind speed from below and above.",
 ["inputs", "histories"], "all contributions (any number, order and values, including wakes that remove the full wind speed), all selections of points, all limits",
 "The tests compare a few farms against reference values of another code; no test adds wakes in a different order, adds none, or adds extreme ones.",
 ["models/wake_superpositions/ws_linear.py", "models/wake_superpositions/ws_quadratic.py", "models/wake_superpositions/ws_pow.py", "models/wake_superpositions/ws_max.py", "models/wake_superpositions/ws_product.py", "models/wake_superpositions/ti_linear.py", "models/wake_superpositions/ti_quadratic.py", "models/wake_superpositions/ti_pow.py", "models/wake_superpositions/ti_max.py"],
 [("add_wake, calc_final_wake_delta", "models/wake_superpositions")], ["wake deltas"])

prop("P05", "Wakes act downstream of operating turbines only",
 "A turbine without thrust causes no wake, and a wake-type model adds nothing at points that are not downstream of the turbine that causes it, while an induction-type model adds nothing beyond the region it describes. Contributions are finite, touch only the wake model's own variables at affected points, and leave the ambient variables and the input data unchanged.",
 ["inputs", "configurations"], "all thrust coefficients in [0, 1), all positions relative to the rotor, all wake models",
 "The tests evaluate full farms at few operating points; zero thrust and points at or upstream of the rotor plane are not looked at separately.",
 ["models/wake_models/dist_sliced.py", "models/wake_models/axisymmetric.py", "models/wake_models/top_hat.py", "models/wake_models/gaussian.py", "models/wake_models/wind", "models/wake_models/ti", "models/wake_models/induction"],
 [("contribute", "models/wake_models"), ("calc_wakes_x_r, calc_amplitude_sigma, calc_wake_radius, calc_centreline", "models/wake_models")], ["wake deltas"])

prop("P06", "Axial induction vanishes without thrust and grows with it",
 "The axial induction factor of each induction model is zero for zero thrust, never decreases with the thrust coefficient, and stays between 0 and 1/2 for thrust coefficients from 0 to 1. The momentum-theory model satisfies thrust = 4 a (1 - a) up to its documented cap and is constant beyond it.",
 ["inputs"], "all thrust coefficients, arrays of any shape, all cap values below 1",
 "Only a few thrust values of one turbine's curve occur in the tests, all far from the cap.",
 ["models/axial_induction/betz.py", "models/axial_induction/madsen.py"], [("ct2a", "models/axial_induction")])

prop("P07", "Wake deficits have the published shape and limits",
 "Wind speed wakes never accelerate the flow and never remove more than the full wind speed. A top-hat wake is constant within its radius, which starts from the rotor and grows linearly, and zero outside; a Gaussian-type wake is largest on its centre line and decays monotonically and symmetrically with the distance from it, following amplitude times exp(-r^2 / (2 sigma^2)). Turbulence wakes never reduce turbulence.",
 ["inputs"], "all thrust coefficients in [0, 1), downstream and radial distances, rotor diameters and wake growth rates",
 "The tests fix one turbine type and a few distances per model; bounds and monotonicity over all distances and thrusts are out of their reach.",
 ["models/wake_models/top_hat.py", "models/wake_models/gaussian.py", "models/wake_models/wind", "models/wake_models/ti"],
 [("calc_wakes_x_r", "models/wake_models"), ("calc_amplitude_sigma", "models/wake_models/wind"), ("calc_centreline, calc_wake_radius", "models/wake_models/wind/jensen.py")])

prop("P08", "Rotor averages are weighted means over points on the rotor",
 "For every rotor model the evaluation points lie in the rotor plane of their own turbine (normal to the rotor axis, centred at the hub, within the square that encloses the rotor), and the point weights are non-negative and sum to one. The rotor averages are the weighted means of the point values (third-power means for the third-moment quantities), so that a uniform inflow is reproduced exactly, and only the requested turbine's results are written.",
 ["inputs", "configurations"], "all rotor orientations, diameters, hub heights, numbers of points per rotor, wind data on the rotor points",
 "The tests look at a few rotor resolutions in one farm and compare aggregated numbers with generous tolerances.",
 ["core/rotor_model.py", "models/rotor_models/centre.py", "models/rotor_models/grid.py", "models/rotor_models/levels.py"],
 [("get_rotor_points, eval_rpoint_results", "core/rotor_model.py"), ("design_points, rotor_point_weights", "models/rotor_models")])

prop("P09", "Partial wake weights equal the covered share of the rotor",
 "The overlap area of two discs is between zero and the smaller disc's area, symmetric, zero when they do not meet, the smaller disc's area when it is contained, and continuous in between. Every partial wake model averages wake effects over the rotor with non-negative weights that sum to one, so that a rotor entirely inside a uniform wake receives the full effect, a rotor outside receives none, and a partly covered rotor receives its share.",
 ["inputs", "configurations"], "all disc radii and distances, all wake radii and rotor positions, including equal radii and touching circles",
 "The tests sample a few lateral offsets in the middle of the range; the boundary cases (touching, equal radii, a wake radius equal to the rotor's) are not hit.",
 ["utils/two_circles.py", "models/partial_wakes/top_hat.py", "models/partial_wakes/axiwake.py", "models/partial_wakes/grid.py", "models/partial_wakes/segregated.py", "models/partial_wakes/rotor_points.py", "models/partial_wakes/centre.py"],
 [("calc_area", "utils/two_circles.py"), ("contribute, finalize_wakes", "models/partial_wakes")])

prop("P10", "Wake coordinates are a rigid, invertible change of coordinates",
 "The wake coordinates of a point are its downstream, horizontal crosswind and vertical offsets from the wake-causing rotor, as seen along the turbine's wind direction: the rotor centre has coordinates zero, distances are preserved, a point straight downstream has a positive first and zero other coordinates. Centre line points of a wake at given distances have those distances as their downstream coordinates.",
 ["inputs", "configurations"], "all wind directions, positions, numbers of states, targets and points per target",
 "The tests use a few wind directions and aligned rows, for which sign and axis mix-ups cancel.",
 ["models/wake_frames/rotor_wd.py", "models/wake_frames/yawed_wakes.py", "core/wake_frame.py"],
 [("get_wake_coos, get_centreline_points", "models/wake_frames/rotor_wd.py")])

prop("P11", "Turbine types apply their power and thrust curves faithfully",
 "Turbine types return the tabulated power and thrust at the tabulated wind speeds, values between neighbouring table entries in between, and zero power and thrust outside the tabulated wind speed range. Air density and yaw corrections scale the wind speed that enters the curves as documented, are neutral at reference density and zero yaw, and neither corrections nor calculation change the inputs or any turbine that is not selected.",
 ["inputs", "configurations"], "all curves (increasing wind speeds, arbitrary values), all wind speeds, densities and yaw misalignments, all selections of turbines",
 "The tests use two curves with few wind speeds and without density or yaw corrections.",
 ["models/turbine_types/PCt_file.py", "models/turbine_types/PCt_from_two.py", "models/turbine_types/CpCt_file.py", "models/turbine_types/CpCt_from_two.py", "models/turbine_types/lookup.py", "models/turbine_types/null_type.py"],
 [("calculate", "models/turbine_types")])

prop("P12", "Turbine models act on exactly their own turbines",
 "Each turbine's models are run in the given order, before or after the rotor evaluation as chosen, and each model is applied to exactly the states and turbines that list it: all other turbines keep their values. Parameters given for a model in one farm setup reach that model only.",
 ["configurations", "inputs"], "all assignments of models to turbines, all numbers of turbines and states",
 "The tests use the same model list for every turbine.",
 ["core/farm_controller.py", "models/farm_controllers/basic.py"],
 [("collect_models, set_pars, calculate, _get_pars", "core/farm_controller.py")])

prop("P13", "Turbine models compute their documented formula on selected turbines only",
 "The wake growth rate follows its documented linear law in the turbulence intensity, thrust is converted to the thrust coefficient with the rotor area and air density, yaw angle and yaw misalignment are each other's inverse with respect to the wind direction, farm variables set by the user are taken over where given, sector rules apply exactly within their sectors of direction and wind speed, factor tables multiply the chosen variables, lookup tables are interpolated at each turbine's inputs, rotor centre models evaluate the waked flow at the rotor centres, and power limits set the power and a thrust coefficient that belongs to it where the limit is exceeded. States and turbines that are not selected keep their values.",
 ["inputs", "configurations"], "all input values, all selections of states and turbines, sectors that cross north",
 "The tests only run the default wake growth model on uniformly configured farms.",
 ["models/turbine_models/kTI_model.py", "models/turbine_models/thrust2ct.py", "models/turbine_models/set_farm_vars.py", "models/turbine_models/yaw2yawm.py", "models/turbine_models/yawm2yaw.py", "models/turbine_models/sector_management.py", "models/turbine_models/table_factors.py", "models/turbine_models/power_mask.py", "models/turbine_models/lookup_table.py", "models/turbine_models/rotor_centre_calc.py", "models/turbine_models/calculator.py"],
 [("calculate", "models/turbine_models")])

prop("P14", "Vertical wind profiles meet their reference value and follow their law",
 "Every vertical profile returns the reference wind speed at the reference height, follows its documented law (power law, neutral, stable or unstable logarithmic) at other heights, and never decreases with height above the roughness length under neutral and stable conditions.",
 ["inputs"], "all heights, reference heights, roughness lengths, shear exponents and stability lengths",
 "The tests contain one sheared profile at a single height pair and no stability.",
 ["utils/abl/sheared.py", "utils/abl/neutral.py", "utils/abl/stable.py", "utils/abl/unstable.py", "models/vertical_profiles"],
 [("calc_ws, ustar", "utils/abl"), ("calculate", "models/vertical_profiles")])

prop("P15", "Looking up model variables finds the right values",
 "Looking up a variable returns the value of the first source that holds it in the requested source order, brought to the requested dimensions (states, turbines or points) such that each entry belongs to its own state, turbine and point. For the wake-causing turbine the values of exactly that turbine in each state are returned, and missing variables, or data of a wrong shape, are reported as an error unless a missing variable is accepted. With wakes from earlier states each entry is the value in the state in which the wake originated; the wake growth rate follows its given constants, and stored data is not altered by lookups.",
 ["inputs", "configurations"], "all combinations of sources, dimensions, selections, and numbers of states, turbines and points",
 "Only the combinations occurring in a few standard farm setups are run, with uniform values which hide index mix-ups.",
 ["core/model.py"], [("get_data", "core/model.py")])

prop("P16", "Data containers keep values, names and dimensions in step",
 "Adding, selecting, slicing and copying in the state, turbine and point containers keeps each variable with its dimensions and order: a slice contains exactly the selected entries along the sliced dimension for variables that have it and all other variables unchanged. Inconsistent sizes along a shared dimension are rejected.",
 ["inputs", "configurations"], "all container contents, slices and selections",
 "The tests never inspect containers directly; slices along several dimensions at once do not occur.",
 ["core/data.py"], [("Data, MData, FData, TData", "core/data.py")])

prop("P17", "Chunk storage and model life cycle keep their records straight",
 "Data stored for a chunk of states and points is found again under that chunk only, survives until it is released, and asking for data that was never stored is an error. A model is initialised exactly once before use, with all its parts, reports its state truthfully and can be finalised and initialised again; changes of set-up while running and undone afterwards leave the model as it was.",
 ["histories", "configurations"], "all sequences of store, fetch, initialise, run, finalise operations",
 "The tests run each algorithm once straight through.",
 ["core/algorithm.py", "core/model.py", "core/data_calc_model.py"],
 [("add_to_chunk_store, get_from_chunk_store, block_convergence", "core/algorithm.py"), ("initialize, finalize, set_running, unset_running", "core/model.py")])

prop("P18", "Ground effect mirrors wakes at the ground and adds nothing else",
 "Without ground effect the wake contributions are those of the wake model itself. With mirrored wakes every wake is added a second time as seen from the mirror image of the wake-causing rotor at the reflection height, each exactly once, and hub heights and target points are unchanged afterwards.",
 ["inputs", "configurations"], "all hub heights, target points, mirror heights and wake models",
 "No test uses a ground model other than the default one.",
 ["models/ground_models/no_ground.py", "models/ground_models/wake_mirror.py", "core/ground_model.py"],
 [("contribute_to_farm_wakes, contribute_to_point_wakes", "models/ground_models")])

prop("P19", "Farm statistics are correct averages, sums and ratios",
 "State averages are weighted with the state weights and sums and extrema are over exactly the requested states and turbines. Farm power is the sum of the turbines' powers, capacity is power over nominal power, efficiency is power over ambient power, at most one (and never NaN or infinite for vanishing ambient power), and yield is mean power times the duration in the requested units.",
 ["inputs"], "all farm results, state weights and durations",
 "The tests only print or compare a few of these values for one farm; zero ambient power and non-uniform weights are not compared.",
 ["output/farm_results_eval.py", "models/farm_models/turbine2farm.py", "algorithms/downwind/models/set_amb_farm_results.py"],
 [("reduce_states, reduce_turbines, calc_yield, add_capacity, add_efficiency", "output/farm_results_eval.py"), ("calculate", "models/farm_models/turbine2farm.py")])

prop("P20", "Area geometry obeys the algebra of sets",
 "A point lies in the union, intersection, difference or inverse of areas exactly if it lies in some, in all, in the first but not the others, or not in the area. The distance of a point to a boundary is non-negative, is the distance to the reported nearest boundary point, and no boundary point is closer.",
 ["inputs", "configurations"], "all points, circles, half planes and their combinations",
 "There are no tests of the geometry package.",
 ["utils/geom2d/area_geometry.py", "utils/geom2d/circle.py", "utils/geom2d/half_plane.py"],
 [("points_inside, points_distance", "utils/geom2d")])

prop("P21", "Ambient states deliver each state's own data with proper weights",
 "Every kind of ambient states delivers, for each state of a chunk and each point, exactly the data given for that state (table row, time stamp, scan combination or frequency-table bin), independent of the point unless a profile or field is given. The statistical weights are non-negative and those of frequency tables sum to one.",
 ["inputs", "configurations"], "all tables, chunk positions, target points and optional columns",
 "The tests use short tables in a single chunk or do not look at ambient data separately.",
 ["input/states/states_table.py", "input/states/single.py", "input/states/scan.py", "input/states/multi_height.py"],
 [("calculate, load_data", "input/states")])

prop("P22", "Every turbine feels all wakes of turbines processed before it, once",
 "In the downwind algorithm's sweep for a wake model each turbine's inflow is evaluated exactly once, after every turbine before it in sweep order contributed its wake exactly once and before its own wake is passed on (the first turbine of the sweep keeps its values), in each state, for any number of turbines; the sweeps of several wake models follow one another. In an iteration of the iterative algorithm every turbine receives the wake of every other turbine exactly once. Point results contain each turbine's wake of each wake model exactly once on top of the ambient values, and ambient results, positions and other turbines' values stay unchanged.",
 ["histories", "configurations"], "all numbers of turbines, all sets of wake, ground and partial wake models",
 "The tests compare end results of a few farms; an omitted or doubled contribution of particular turbines in larger or mixed set-ups is not seen.",
 ["algorithms/downwind/models/farm_wakes_calc.py", "algorithms/downwind/models/point_wakes_calc.py", "algorithms/iterative/models/farm_wakes_calc.py", "core/farm_data_model.py", "core/point_data_model.py"],
 [("calculate", "algorithms/downwind/models/farm_wakes_calc.py"), ("calculate", "algorithms/downwind/models/point_wakes_calc.py")])

prop("P23", "Iterations stop exactly when converged",
 "The iterative algorithm's convergence test is met exactly if every monitored variable changed by at most its limit between the last two iterations in all states and turbines, the first iteration never counts as converged, and a list of criteria is met exactly if all of them are. The loop ends at the first iteration that is converged and not blocked, or when the allowed number of iterations after the first one has been run, each comparing with the results of the one before, and the result comes from one final run. Under-relaxed variables are the weighted mean of the old and new values of the same state.",
 ["inputs", "histories"], "all sequences of farm results and limits",
 "One test runs one converging farm to its end.",
 ["algorithms/iterative/models/convergence.py", "algorithms/iterative/iterative.py"],
 [("check_converged", "algorithms/iterative/models/convergence.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        for x in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
