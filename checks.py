# One entry per property: which monitors decide it and how much they run.
CHECKS = {
    "C01": dict(kind="lib", flavour="asan", targets=["c01_polyeval"], cases={"c01_polyeval": (5000, 120000)},
                rule="polynomials of 1..22 coefficients of six shapes (unit, time-scaled, wild magnitudes, sparse, integer, offset), 7 times each incl. 0, negative, <1e-17 and up to 1e6; every derivative order; distinct by coefficient vector",
                must_observe=["base_vectors", "vector_evaluations", "derivative_coefficient_vectors", "derivatives_above_degree"]),
    "C02": dict(kind="lib", flavour="asan", targets=["c02_polyalg"], cases={"c02_polyalg": (8000, 200000)},
                rule="pairs of polynomials (1..12 coefficients, sizes equal and different); every operator; distinct by operand coefficients",
                must_observe=["product_values", "sums_of_equal_size", "sums_of_different_size", "self_operations", "time_scalings", "pads", "refused_pads", "comparisons_of_different_size"]),
    "C03": dict(kind="lib", flavour="asan", targets=["c03_extrema"], cases={"c03_extrema": (16000, 400000)},
                rule="polynomials (random of six shapes, or built from chosen simple/repeated/border roots), derivative and interval; distinct by coefficients",
                must_observe=["extrema", "roots", "reference_real_roots", "interior_critical_points", "reversed_intervals", "negative_intervals"]),
}
CHECKS.update({
    "C04": dict(kind="lib", flavour="asan", targets=["c04_piecewise"], cases={"c04_piecewise": (10000, 200000)},
                rule="trajectories of 1-10 segments, 1-12 coefficients, 1-6 dimensions, times random or dyadic (exact joints), built at once or extended; evaluated at ends, joints, next to joints, inside and past the end; distinct by coefficients", must_observe=["trajectory_evaluations", "exact_boundaries", "past_end_evaluations", "trajectories_extended", "empty_evaluations", "self_assignments"]),
    "C06": dict(kind="lib", flavour="asan", targets=["c06_magnitude"], cases={"c06_magnitude": (10000, 150000)},
                rule="segments and trajectories of several shapes (random, planar circles, common zeros, constants), random sub-intervals, derivatives and dimension subsets; dense scan plus refinement as reference; distinct by coefficients", must_observe=["segments", "intervals_beyond_the_segment", "trajectories", "velocity_acceleration_maxima"],
                ratio_limits=[("refusals", "operations", 0.002, "C06.refusals")]),
    "C07": dict(kind="lib", flavour="asan", targets=["c07_timescale"], cases={"c07_timescale": (6000, 120000)},
                rule="trajectories of 1-8 segments, factors log-uniform 0.02-50, refused factors, limits below, above and near the true maxima; distinct by coefficients", must_observe=["scalings", "extreme_factors", "trajectories_at_rest", "refused_scalings", "limit_mode_0", "limit_mode_1", "limit_mode_2", "limit_mode_3"]),
})
CHECKS.update({
    "C05": dict(kind="lib", flavour="asan", targets=["c05_sampling"], cases={"c05_sampling": (1500, 40000)},
                rule="trajectories of 1-7 dimensions (half of them 4 or 6), continuous or not; ranges from random, joint and end times with steps dyadic, log-uniform or longer than the range; every sample compared; distinct by coefficients", must_observe=["range_samples", "flat_samples", "flat_durations", "flat_whole", "single_states", "yaw_states", "rotation_states", "empty_ranges"]),
})
CHECKS.update({
    "C08": dict(kind="lib", flavour="asan", targets=["c08_compose"], cases={"c08_compose": (12000, 180000)},
                rule="trajectories of 1-6 segments and dimensions with operands of equal and other order, duration and shape; distinct by coefficients", must_observe=["single_dimensions", "appended_same_order", "appended_other_order", "concatenations", "in_place_results", "translations", "vertices", "split_vertices"]),
})
CHECKS.update({
    "C09": dict(kind="lib", flavour="asan", targets=["c09_io"], cases={"c09_io": (1200, 30000)},
                rule="trajectories incl. extreme and denormal coefficients, written to memory, text and files over older longer files; structured damages of one node and random byte damages; distinct by coefficients", must_observe=["yaml_round_trips", "unlike_segments", "file_round_trips", "missing_files", "damaged_refused", "byte_damage_refused", "tables", "tables_with_more_segments_than_samples"]),
})
CHECKS.update({
    "C10": dict(kind="lib", flavour="asan", targets=["c10_linear"], cases={"c10_linear": (2000, 50000)},
                rule="random vertex lists (2-9 vertices, 1-4 dimensions, N 4..12, constraints on random derivatives incl. too high ones, coincident positions), reuse, new times, chosen free values; distinct by solution", must_observe=["C10_splines_checked", "reused_objects", "fully_constrained", "time_updates", "chosen_free_values", "ignored_constraints", "problems_N4", "problems_N12"]),
})
CHECKS.update({
    "C11": dict(kind="lib", flavour="asan", targets=["c11_optimal"], cases={"c11_optimal": (1000, 25000)},
                rule="problems as C10; gradient of the cost in the null space of the constraints, random alternatives; distinct by solution", must_observe=["costs", "optimality_checks", "matrix_checks", "cost_matrices", "maxima", "alternatives", "problems_N4", "problems_N12"]),
})

CHECKS.update({
    "C12": dict(kind="lib", flavour="asan", targets=["c12_nonlinear"], cases={"c12_nonlinear": (4000, 60000)},
                rule="problems of 1-5 segments, N 6/8/10, all methods and several algorithms, limits none/loose/tight on derivatives 1 and 2, soft/hard, penalties log-uniform; distinct by returned times and coefficients", must_observe=["reports", "best_found_returned", "compared_with_start", "bounded_free_values", "mellinger_within_limits", "linear_optimum_checks"]),
})

CHECKS.update({
    "C13": dict(kind="lib", flavour="asan", targets=["c13_times"], cases={"c13_times": (60000, 1800000)},
                rule="2-9 vertices of 1-4 dimensions, coincident, short and long distances, rest/moving/unconstrained ends, limits log-uniform; distinct by times", must_observe=["coincident_vertices", "moving_along_an_axis", "rest_segments", "moving_segments", "ramps_short", "ramps_long", "estimates_optimised"]),
    "C14": dict(kind="lib", flavour="asan", targets=["c14_vertices"], cases={"c14_vertices": (50000, 1500000)},
                rule="histories of 1-14 operations on vertices of 1-6 dimensions against a map; generators with random bounds, sizes, seeds; distinct by history", must_observe=["operations", "removals", "comparisons", "opposite_differences", "subdimensions", "refused_subdimensions", "random_lists", "squares"]),
    "C15": dict(kind="lib", flavour="asan", targets=["c15_rotation"], cases={"c15_rotation": (40000, 1200000)},
                rule="rotation vectors of angles 0, tiny, ordinary, near and at half a turn; perturbed and reflected matrices; analytic rates vs differences in long double; states; distinct by vector", must_observe=["matrices", "vectors", "half_turns", "refused_matrices", "rates", "rates_small_angle", "gimbal_lock", "transforms", "default_states", "rotor_speeds"]),
})

CHECKS.update({
    "C16": dict(kind="dt", flavour="asan", targets=["c16_modifier"], cases={"c16_modifier": (6000, 200000)},
                rule="histories of 1-10 moves (before, at and after passing, with and without time), resets, times, copies against a model of bumps; evaluated at, around and far from the time of the waypoint; distinct by history", must_observe=["modifier_values", "modifier_zero", "moves", "late_moves", "moves_without_time", "resets", "copies", "compensations", "numeric_derivatives", "at_waypoint_time"]),
    "C26": dict(kind="lib", flavour="asan", targets=["c26_timing"], cases={"c26_timing": (4000, 80000)},
                rule="sample sequences up to 3 windows of 5 window sizes, five shapes; 1-160 timer operations on 1-5 tags under a virtual clock; groups of 4 threads; distinct by case", must_observe=["window_full", "window_filling", "tags_checked", "thread_groups", "resets"]),
})

CHECKS.update({
    "C17": dict(kind="dt", stall_s=150, flavour="asan", targets=["c17_plan"], cases={"c17_plan": (500, 12000)},
                rule="vehicle, speed (0.5-12 m/s) and 1-6 waypoints drawn at random, with and without names, velocity and acceleration constraints, set at once or appended one by one; first plans and 1-2 plans after the end of the former; each plan scanned at 300 times, at every waypoint and outside; distinct by end time of the first plan", must_observe=["first_plans", "later_plans", "waypoints_reached", "rest_ends", "velocity_constraints", "acceleration_constraints", "outside_evaluations", "remaining_checked"]),
})

CHECKS.update({
    "C18": dict(kind="dt", flavour="asan", targets=["c18_refs"], cases={"c18_refs": (240, 6000)},
                rule="trajectories in flight with 0-5 moved waypoints; windows between random times, integrated numerically; repeated, plotting, position-only and clamped evaluations; distinct by window", must_observe=["velocity_integrals", "acceleration_integrals", "windows_with_moved_waypoints", "only_positions", "repeated", "clamped", "plots", "moves", "generated_while_plotting", "continued_while_plotting"]),
})

CHECKS.update({
    "C19": dict(kind="dt", flavour="asan", targets=["c19_moves"], cases={"c19_moves": (240, 6000)},
                rule="flights with histories of waypoint moves (named, unnamed, absent, passed, close, simultaneous), each followed by references on a grid compared with the trajectory before the move plus Gaussian displacements; distinct by list after the move", must_observe=["displaced_references", "undisplaced_references", "moved_waypoints_reached", "moves", "moves_of_nothing", "moves_of_passed_waypoints", "moves_close_to_waypoint", "generated_after_zone", "positions_kept"]),
})

CHECKS.update({
    "C20": dict(kind="dt", flavour="asan", targets=["c20_replan"], cases={"c20_replan": (240, 6000)},
                rule="flights whose next trajectory is asked for at random times, held at the beginning or in the middle of its generation while the vehicle flies on, with and without earlier moves, swapped by an evaluation, a list or a plot; distinct by list after the swap", must_observe=["continuations", "stitched", "from_scratch", "generations_held", "displaced_requests", "asked_without_waypoints", "swapped_by_evaluation", "swapped_by_list", "swapped_by_plot", "first_references", "take_over_times", "take_over_times_from_scratch", "waypoints_kept", "waypoints_reached"]),
})

CHECKS.update({
    "C21": dict(kind="dt", flavour="asan", targets=["c21_requests"], cases={"c21_requests": (200, 6000)},
                rule="histories of 2-6 groups of requests (set, append, move, modify with and without regeneration) placed before, at the beginning, in the middle, right after a generation, during evaluation, in a burst or close to a waypoint; distinct by fulfilled list", must_observe=["names_used_again", "fulfilled", "planned_anew", "waiting_close_to_waypoint", "wishes_fulfilled", "set_beginning", "set_middle", "set_generated", "set_burst", "set_evaluating", "set_idle", "set_before", "append_beginning", "append_middle", "append_generated", "append_burst", "append_evaluating", "append_idle", "append_before", "move_beginning", "move_middle", "move_generated", "move_burst", "move_evaluating", "move_idle", "move_before", "modify_beginning", "modify_middle", "modify_generated", "modify_burst", "modify_evaluating", "modify_idle", "modify_before", "modifyAll_beginning", "modifyAll_middle", "modifyAll_generated", "modifyAll_burst", "modifyAll_evaluating", "modifyAll_idle", "modifyAll_before"]),
})

CHECKS.update({
    "C22": dict(kind="dt", flavour="tsan", targets=["c22_threads", "c22_threads_out", "c22_watch"], cases={"c22_threads": (300, 8000), "c22_threads@asan": (120, 4000), "c22_threads_out": (40, 800), "c22_watch@asan": (160, 5000), "c22_watch": (60, 2000)},
                rule="1-2 flying, 1-2 appending, 0-2 moving and 1-2 reading threads on one generator under ThreadSanitizer, started before or after the first trajectory, standing or flying; besides, 2-5 single changes (moves, appended waypoints, waypoints set anew) watched by a thread that asks for reports all the time and one that evaluates at a fixed time; a tenth with the library's progress output switched on; distinct by order of the final list and end time", must_observe=["evaluations_by_threads", "requests_by_threads", "reads_by_threads", "appended_by_threads", "regenerations_seen", "changes_reported", "appended", "moved", "set_anew", "lists_seen", "times_seen", "references_before_a_change", "references_after_a_change"]),
})

CHECKS.update({
    "C23": dict(kind="dt", flavour="asan", targets=["c23_lifetime"], cases={"c23_lifetime": (240, 6000), "c23_lifetime@tsan": (80, 2000)},
                rule="generators destroyed in 14 phases of their life, alone or several at once, in the thread that made them or another; distinct by phase, number and thread", must_observe=["lives", "several", "destroyed_asked_for_nothing", "destroyed_close_to_waypoint", "destroyed_configured", "destroyed_flown", "destroyed_generated", "destroyed_moved", "destroyed_optimising", "destroyed_over", "destroyed_requested", "destroyed_requested_again", "destroyed_second_optimising", "destroyed_unused"]),
})

CHECKS.update({
    "C24": dict(kind="dt", flavour="asan", targets=["c24_shared"], cases={"c24_shared": (1200, 30000), "c24_shared@tsan": (400, 10000)},
                rule="2-4 threads copying, moving, assigning, comparing, reading and writing 1-3 shared values, under AddressSanitizer and under ThreadSanitizer; distinct by drawn case", must_observe=["concurrent_reads", "concurrent_writes", "changes_seen", "comparisons", "empty", "filled", "shared_life"]),
})

CHECKS.update({
    "C27": dict(kind="dt", flavour="tsan", targets=["c27_independent"], cases={"c27_independent": (60, 2000), "c27_independent@asan": (160, 4000)},
                rule="2-5 tasks (library N=6/8/10 with every time allocation, or a whole flight) alone and then at the same time; distinct by task", must_observe=["library_tasks", "generator_tasks", "results_compared"]),
})

CHECKS.update({
    "C28": dict(kind="dt", flavour="asan", targets=["c28_plot"], cases={"c28_plot": (200, 5000), "c28_plot@tsan": (60, 1500)},
                rule="2-12 operations (new, moved and unchanged trajectories plotted, 1-8 vehicle updates) on a plotter in memory that held zeros or ones, with a drawing thread that lingers at random calls of a recording stand-in for the plotting package; distinct by history and end time", must_observe=["screens_compared", "trajectories_plotted", "vehicle_updates", "points_compared", "reference_plots"]),
})
