# The properties; tools/gen.py writes properties.jsonl and MANIFEST.json from this.
M = "subpackages/mav_trajectory_generation/"
I, S = M + "include/mav_trajectory_generation/", M + "src/"
P = {}

def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    P[pid] = dict(
        prop=dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)),
        technique=technique, note=note)

NOVAL = "The two existing tests only build trajectories and print or plot them; no value is asserted, "
ASAN = "online reference-model monitor (long double / exact algebra) over seeded hostile inputs, real code under AddressSanitizer and UndefinedBehaviorSanitizer"
NOTE = "Exploration: decides every execution it runs (seeded, deterministic, bounded count) against an independent oracle within tolerances derived from the conditioning of the operation; inputs outside the generated shapes are not covered. Trusts compiler, sanitizers, libm and Eigen. "

prop("C01", "Polynomials evaluate to their mathematical value and derivatives",
     "Evaluating a polynomial, or any derivative of it, at any finite time returns the value of that derivative of sum c_i t^i within rounding, for one order and for a vector of orders alike; orders above the degree give zero. The coefficients of a derivative, and the base coefficients whose product with the coefficients is the value of a derivative at a time, describe the same function.",
     ["inputs"], "all coefficient vectors up to the supported size, all orders, all finite times including 0 and negative",
     NOVAL + "and no polynomial, order or time is sampled on its own.",
     [I + "polynomial.h", S + "polynomial.cpp"],
     [("table of derivative factors", S + "polynomial.cpp computeBaseCoefficients"), ("Horner evaluation", I + "polynomial.h evaluate"), ("baseCoeffsWithTime", I + "polynomial.h")],
     technique=ASAN, note=NOTE)
prop("C02", "Polynomial arithmetic is the arithmetic of the functions",
     "Sum, product, scaling by a number, scaling of time, offset, padding with higher coefficients and convolution of polynomials give the polynomial of the correspondingly combined functions of time, also for operands of different size; padding to fewer coefficients is refused. Operands keep their values, and equality holds exactly between polynomials with the same number and values of coefficients.",
     ["inputs"], "all pairs of polynomials of equal and of different size, all scale factors and offsets",
     NOVAL + "and operators on operands of different size are never used.",
     [I + "polynomial.h", S + "polynomial.cpp", I + "convolution.h"],
     [("operators", I + "polynomial.h"), ("scalePolynomialInTime, getPolynomialWithAppendedCoefficients, convolve", S + "polynomial.cpp")],
     technique=ASAN, note=NOTE)
prop("C03", "Roots and extrema of a polynomial are true and complete",
     "The minimum and maximum of any derivative of a polynomial over an interval are values it attains there, at the reported times, and no point of the interval lies outside them; candidate lists contain the interval's ends and every interior critical point, and nothing outside the interval. All reported roots are roots and none of the simple real roots is missing; where this cannot be computed, the operation says so (rarely) instead of returning a wrong answer.",
     ["inputs"], "all polynomials, including leading or trailing zero coefficients, repeated roots and roots on the border, all intervals, reversed intervals refused",
     NOVAL + "and the root finder's failure paths depend on particular coefficient patterns.",
     [I + "polynomial.h", S + "polynomial.cpp", S + "rpoly/rpoly_ak1.cpp", I + "rpoly/rpoly_ak1.h"],
     [("Jenkins-Traub root finder", S + "rpoly/rpoly_ak1.cpp"), ("computeMinMaxCandidates / selectMinMaxFromCandidates", S + "polynomial.cpp")],
     technique=ASAN, note=NOTE + "Extrema are compared with a dense scan plus refinement, roots with polynomials built from chosen roots and with eigenvalues.")
prop("C04", "Segments and trajectories evaluate piecewise in time order",
     "A trajectory evaluated at any time within its duration returns the requested derivative of the segment covering that time at the offset into that segment, in every dimension (at a joint: of one of the two segments meeting there); past its end it returns zeros. Its duration is the sum of its segments' times, its segments and segment times are those it was given in that order, adding or replacing segments updates all of this, and equality holds exactly for equal segments.",
     ["inputs", "histories"], "all trajectories of any number of segments and dimensions, all times, all orders, all sequences of set/add/clear",
     NOVAL + "and joints, ends and accumulated times are met only by chance.",
     [I + "segment.h", S + "segment.cpp", I + "trajectory.h", S + "trajectory.cpp"],
     [("search for the segment covering a time", S + "trajectory.cpp evaluate"), ("maximum time bookkeeping", I + "trajectory.h setSegments/addSegments")],
     state=[("max_time_", "sum of segment times", I + "trajectory.h")],
     technique=ASAN, note=NOTE)
prop("C05", "Sampled trajectories agree with direct evaluation",
     "Sampling a range returns exactly the uniform grid from its start, spaced by the interval and before its end, each sample being the direct evaluation at its stated time; nothing is sampled from an empty or reversed range. States sampled from a trajectory or segment carry position, velocity, acceleration, jerk and snap of that time, heading and its rates or the rotation where the trajectory has those dimensions, and the time from the start; times outside the trajectory and trajectories of fewer than three dimensions are refused.",
     ["inputs"], "all trajectories of 3, 4 and 6 dimensions and unsupported ones, all ranges and intervals including empty, tiny, reversed and out of range",
     NOVAL + "and sampling helpers are never called with ranges that start inside a later segment or hit segment borders.",
     [S + "trajectory.cpp", S + "trajectory_sampling.cpp", I + "trajectory_sampling.h"],
     [("evaluateRange", S + "trajectory.cpp"), ("sampleTrajectoryInRange / sampleFlatStateAtTime", S + "trajectory_sampling.cpp")],
     technique=ASAN, note=NOTE + "Sample counts at a grid end within rounding may differ by one.")
prop("C06", "Magnitude extrema bound the trajectory's speed and acceleration",
     "The minimum and maximum magnitude of a derivative over chosen dimensions of a segment or trajectory are attained at the reported time and segment, and no time within the range has a smaller or larger one; the maximum velocity and acceleration are these maxima of the first and second derivative. Invalid dimensions and reversed intervals are refused; on segments of ordinary length an answer is refused at most in very rare cases and never wrong.",
     ["inputs"], "all segments and trajectories, all derivatives, all subsets of dimensions, all sub-intervals",
     NOVAL + "and a missed extremum shows only for particular polynomials.",
     [S + "segment.cpp", S + "trajectory.cpp", S + "polynomial.cpp"],
     [("computeMinMaxMagnitudeCandidates / selectMinMaxMagnitudeFromCandidates", S + "segment.cpp"), ("computeMinMaxMagnitude, computeMaxVelocityAndAcceleration", S + "trajectory.cpp")],
     technique=ASAN, note=NOTE + "Refusals are limited to 0.2 % of the operations by the check.")
prop("C07", "Scaling a trajectory in time keeps its path and divides its derivatives",
     "Scaling segment times by a factor keeps the path and its duration becomes the factor times the old one, with the k-th derivative divided by the factor's k-th power at corresponding times; factors that are not positive are refused and leave the trajectory as it was. Scaling to velocity and acceleration limits stretches time just as far as needed for both to hold, within one part in a thousand, and changes nothing if they hold already.",
     ["inputs"], "all trajectories, factors and limits",
     NOVAL + "and time scaling is not called by them.",
     [S + "trajectory.cpp", S + "polynomial.cpp"],
     [("scaleSegmentTimes, scaleSegmentTimesToMeetConstraints", S + "trajectory.cpp")],
     technique=ASAN, note=NOTE)
prop("C08", "Composing and splitting trajectories preserves every value",
     "Taking a single dimension, appending dimensions (of equal or different polynomial order; segments of different duration are stretched to the longer), concatenating trajectories and translating them give trajectories whose values, derivatives and segment times are those of the operands at all times. Vertices extracted from a trajectory hold its derivatives up to the requested order at each joint, split exactly into position and heading parts; concatenating trajectories of other shape, dimensions that do not exist and translations of fewer dimensions than the position are refused.",
     ["inputs"], "all trajectories and pairs of trajectories, matching or not",
     NOVAL + "and composition is not called by them.",
     [S + "trajectory.cpp", S + "segment.cpp", I + "trajectory.h"],
     [("getTrajectoryWithSingleDimension, getTrajectoryWithAppendedDimension, addTrajectories, offsetTrajectory, getVertices", S + "trajectory.cpp"), ("getSegmentWithAppendedDimension", S + "segment.cpp")],
     technique=ASAN, note=NOTE)
prop("C09", "Saved trajectories are read back unchanged, damaged ones are refused",
     "Writing a trajectory or its segments to YAML or a file and reading it returns the same polynomials bit for bit and the same segment times within a nanosecond, and doing so again changes nothing. Missing, unreadable, truncated or inconsistent input is refused (false or a YAML exception), leaving a trajectory given as target as it was; a writer reports success only if all of it was written; the table of sampled states has one row per state with that state's values.",
     ["inputs", "fault_sequences"], "all trajectories; all single structural damages and random byte damages of a file; unwritable and missing paths, directories, and devices that run full at any byte",
     NOVAL + "and no file is read back; damage is never injected.",
     [S + "io.cpp", I + "io.h"],
     [("coefficientsToYaml/segmentToYaml and back, trajectoryToFile/FromFile, sampledTrajectoryStatesToFile", S + "io.cpp")],
     technique=ASAN + ", with injected file damage", note=NOTE)
prop("C10", "The linear optimiser meets every constraint and joins segments smoothly",
     "After solving, the trajectory takes exactly the constrained derivatives at every vertex, has one segment per pair of vertices with the given times, and is continuous at inner vertices in all derivatives up to half the number of coefficients minus one, whatever is constrained; constraints of higher order are ignored with a notice. This holds again after new segment times, after setting the free derivatives (which are then taken), and on an object set up before for another problem.",
     ["inputs", "histories"], "all vertex lists, numbers of coefficients 4 to 12, derivatives to optimise, segment times of moderate ratio, and histories of setups and updates of one object",
     NOVAL + "and constraint patterns other than position-only with rest ends are not used.",
     [I + "impl/polynomial_optimization_linear_impl.h", I + "polynomial_optimization_linear.h"],
     [("setupConstraintReorderingMatrix, solveLinear, updateSegmentsFromCompactConstraints", I + "impl/polynomial_optimization_linear_impl.h")],
     technique=ASAN, note=NOTE + "Tolerances relative to the size of the derivatives per number of coefficients (1e-12 for 4 to 1e-6 for 12).")
prop("C11", "The linear optimiser's result is optimal and its cost the integral it means",
     "The reported cost is the integral of the squared optimised derivative over the trajectory, and no other choice of free derivatives meeting the constraints has a lower one. The mapping, inverse mapping, cost and reordering matrices it hands out satisfy their defining equations, and its maximum of a magnitude is the trajectory's, in every form of the call; the search by sampling stays in its interval, has both ends and misses no clear extremum along one axis.",
     ["inputs"], "all problems as in the linear optimiser's constraints, all alternatives of free derivatives",
     NOVAL + "and optimality is a statement about all alternatives.",
     [I + "impl/polynomial_optimization_linear_impl.h"],
     [("computeCost, computeQuadraticCostJacobian, setupMappingMatrix, invertMappingMatrix, constructR, computeMaximumOfMagnitude", I + "impl/polynomial_optimization_linear_impl.h")],
     technique=ASAN, note=NOTE + "Optimality is decided by the gradient in an orthonormal basis of the constraint null space plus random alternatives.")
prop("C12", "The nonlinear optimiser hands out the best feasible answer it found",
     "Whatever method and limits, the optimised trajectory still meets all vertex constraints and continuity, has every segment time at least the minimum of 0.1 s, is the best solution evaluated and costs no more than the starting point, and the report (cost parts, maxima, iterations, result code) describes it. Methods that only change times return the linear optimum of their times; free derivatives stay within the limits imposed on them; the same input gives the same result again, with or without debug output; the Mellinger method's result is the best times found, stretched in proportion until it is within the limits that apply to it.",
     ["inputs", "configurations"], "all methods, algorithms, limits (soft, hard, none), penalties, iteration limits and problems",
     NOVAL + "and one method with one set of parameters is run.",
     [I + "impl/polynomial_optimization_nonlinear_impl.h", I + "polynomial_optimization_nonlinear.h"],
     [("optimizeTime*, objectiveFunction*, scaleSegmentTimesWithViolation, setFreeEndpointDerivativeHardConstraints, evaluateSolution", I + "impl/polynomial_optimization_nonlinear_impl.h")],
     technique=ASAN + "; interposed numerical optimiser records what it returned", note=NOTE + "Costs are compared to 1e-6; the interposed nlopt_optimize forwards to the real one.")
prop("C13", "Estimated segment times suffice for distance, speed and stopping",
     "Every estimate gives one finite positive time per segment, never less than distance divided by the speed limit; the default estimate is the distance over speed, plus speed over acceleration if either end is at rest. The velocity ramp estimate is the time of a rest-to-rest ramp within both limits times the given factor, at least 0.1 s.",
     ["inputs"], "all vertex lists including coincident vertices, all positive limits and factors",
     NOVAL + "and coincident vertices or short ramps are not used.",
     [S + "vertex.cpp", I + "vertex.h"],
     [("estimateSegmentTimes, estimateSegmentTimesNfabian, estimateSegmentTimesVelocityRamp, computeTimeVelocityRamp", S + "vertex.cpp")],
     technique=ASAN, note=NOTE)
prop("C14", "Vertices hold exactly the constraints they were given",
     "After any sequence of adding, replacing and removing constraints and of start/end definitions, a vertex has exactly the constraints of that history with their last values, and copies, comparison within a tolerance, and selection of dimensions agree with them. Generated vertex lists keep to their bounds, size and seed, with rest at both ends; names of derivatives and their orders map to each other, unknown ones being reported.",
     ["inputs", "histories"], "all histories of operations on vertices of 1 to 6 dimensions; all bounds, sizes and seeds",
     NOVAL + "and removal, comparison and selection of dimensions are not called.",
     [S + "vertex.cpp", I + "vertex.h", S + "motion_defines.cpp", I + "motion_defines.h"],
     [("addConstraint, removeConstraint, makeStartOrEnd, isEqualTol, getSubdimension, createRandomVertices, createSquareVertices", S + "vertex.cpp")],
     technique=ASAN, note=NOTE)
prop("C15", "Rotations, rates and state conversions are mathematically correct",
     "Conversion between rotation vectors and matrices is exact in both directions for every angle up to half a turn, matrices that are not rotations are refused, and angular velocity and acceleration computed from a rotation vector's derivatives are those of the rotation. Yaw and Euler angles, transformed states, rotor speeds, time stamps and gravity follow their definitions, always as finite numbers, also at 90 degrees of pitch and tiny or half-turn rotations.",
     ["inputs"], "all rotation vectors, their derivatives, quaternions, rigid transforms, mass properties and latitudes",
     NOVAL + "and conversions are not called; singular cases have measure zero.",
     [M + "include/mav_msgs/common.hpp", M + "include/mav_msgs/eigen_mav_msgs.hpp"],
     [("matrixFromRotationVector, vectorFromRotationMatrix, omegaFromRotationVector, omegaDotFromRotationVector, getEulerAnglesFromQuaternion", M + "include/mav_msgs/common.hpp"), ("state structures", M + "include/mav_msgs/eigen_mav_msgs.hpp")],
     technique=ASAN, note=NOTE)
prop("C16", "Moving a waypoint online displaces the reference smoothly and exactly",
     "When a waypoint to be passed at some time is moved, the reference is displaced at that time by the whole move and before and after by a Gaussian bump around that time, three widths long from the moment of the move; outside three and a half widths there is no displacement, moves below 2 cm per axis displace nothing, successive moves add up and resetting removes them. The displacement and its first and second derivatives are finite and belong to each other for every time, also if the waypoint is moved when or after it is passed; the waypoint reports its name, index, time, original and current position and constraints accordingly, and copies behave the same.",
     ["inputs", "histories"], "all histories of moves, resets, new times and copies of a waypoint; all evaluation times",
     NOVAL + "and the times at which moves arrive relative to the waypoint are never varied.",
     ["include/dynamic_trajectory_generator/utils/traj_modifiers.hpp", "include/dynamic_trajectory_generator/dynamic_waypoint.hpp", "src/dynamic_waypoint.cpp"],
     [("GaussianModifier::operator()", "include/dynamic_trajectory_generator/utils/traj_modifiers.hpp"), ("setCurrentPosition, trajectoryCompensation", "src/dynamic_waypoint.cpp")],
     technique=ASAN, note=NOTE + "For moves without a time (whose widths are internal) only the displacement at the waypoint's time, finiteness, numerical consistency of the derivatives and zero far away are decided.")
prop("C26", "Timing statistics describe exactly the samples taken",
     "A timer's number of samples, total, mean, minimum and maximum are those of all its samples (of any sign), the rolling mean, rate and variance those of the last window of samples, under its tag or handle and in the printed table alike. Every start/stop pair and every scope adds exactly one sample to its own tag, also from several threads at once; reset forgets all tags.",
     ["inputs", "histories", "schedules"], "all sample sequences around the window size, all sequences of timer operations on several tags, several threads",
     NOVAL + "and statistics are never read.",
     [I + "timing.h", S + "timing.cpp"],
     [("Accumulator::Add", I + "timing.h"), ("Timer, Timing", S + "timing.cpp")],
     technique=ASAN + "; virtual system clock", note=NOTE)

DT, DTH = "src/dynamic_trajectory.cpp", "include/dynamic_trajectory_generator/dynamic_trajectory.hpp"
PL = "include/dynamic_trajectory_generator/utils/plotting_utils.hpp"
TS = "include/dynamic_trajectory_generator/thread_safe_trajectory.hpp"
DTM = "online monitor of the public interface of the real generator against a reference model, with a virtual clock and a gate that holds its internal threads at chosen points, under AddressSanitizer and UndefinedBehaviorSanitizer"
DTN = "Exploration: decides every flight it flies (seeded workload, bounded count; the scheduling of internal threads is real and partly forced by the gate). Tolerances follow from evaluation times being floats and from the conditioning of the trajectory. Trusts compiler, sanitizers, nlopt and Eigen. "
TSAN = "race detection by ThreadSanitizer on the real generator under stress workloads, together with online monitors of values, order and exactly-once effects"

prop("C17", "A plan passes every waypoint as asked and rests at both ends",
     "The first plan, and every plan made after the previous one has ended, starts at rest at the vehicle's position at the time evaluated when it was generated, passes the waypoints in the order given, each at the time it reports (less the time compensation) at its position and with its velocity and acceleration where given, and ends at rest at the last one; before its start and after its end the reference stays at rest at its ends. All references are finite, the time taken fits distance and speed on the whole (the mean speed stays below 1.6 times the speed set, the duration below 1.6 times that of ramps and cruise), reported times increase, indices count, start and end time are those of first and last waypoint, the waypoints reported as remaining are exactly those later than the last non-plotting evaluation, and a new trajectory is reported as regenerated exactly once.",
     ["inputs", "histories"], "all vehicle positions, waypoint lists, constraints and speeds; waypoints set at once or appended; first and later plans",
     NOVAL + "and only one list of waypoints is ever flown.",
     [DT, DTH, "src/dynamic_waypoint.cpp"],
     [("computeTrajectory, appendDronePositionWaypoint, extractVerticesFromWaypoints, getCummulativeTime", DT), ("getNextTrajectoryWaypoints, getRemainingWaypoints", DTH)],
     technique=DTM, note=DTN)
prop("C18", "The references of a trajectory belong together and plotting does not disturb it",
     "Along a trajectory, also while waypoints are moved, the change of the position reference over any time is the integral of the velocity reference, and that of velocity the integral of acceleration. Evaluating again at a time gives the same references; asking for positions only gives the same position and leaves velocity and acceleration zero; References give position, velocity and acceleration under index 0, 1, 2 and refuse others. Evaluations for plotting change nothing of what later calls return, such as remaining waypoints or where the next trajectory starts; times outside the trajectory give the references of its ends.",
     ["inputs", "histories"], "all trajectories, moves and evaluation windows; plotting evaluations at any time",
     NOVAL + "and references are never related to each other.",
     [DT, DTH],
     [("evaluateTrajectory, getReferences, evaluateModifiedTrajectory", DT), ("References", DTH)],
     technique=DTM, note=DTN)
prop("C19", "Waypoints moved in flight are passed where they are moved to",
     "Moving waypoints of the trajectory being flown without asking for a new one displaces the references, position, velocity and acceleration, by the sum of the smooth bumps of the moves and by nothing else: the waypoint is passed at its reported time at its new position, reports it, and waypoints before the bump, passed, unnamed or absent names displace nothing. Waypoints with the same name move together; no trajectory is generated for a move without request, moves are reported as a changed trajectory, and right before a waypoint no new trajectory is generated until it is passed. The next trajectory passes the waypoints where they were moved to, without displacement left over.",
     ["inputs", "histories"], "all histories of moves in flight, at all times relative to the waypoints",
     NOVAL + "and no waypoint is ever moved in a test.",
     [DT, "src/dynamic_waypoint.cpp", "include/dynamic_trajectory_generator/utils/traj_modifiers.hpp"],
     [("modifyWaypoint, applyWaypointModification, evaluateModifiedTrajectory, checkInSecurityZone", DT)],
     technique=DTM, note=DTN)
prop("C20", "A trajectory generated in flight continues the one being flown",
     "A trajectory generated while another is flown begins at the time evaluated last when its generation began, with the position, velocity and acceleration the references had there, displacements included, if enough of the old trajectory is left, and otherwise at rest at the vehicle. Until it is ready the old trajectory is flown unchanged; when it takes over, at an evaluation, plot or list, the reference does not jump away from the last one beyond what the time compensation explains, whatever time the generation took. It contains exactly the waypoints still ahead where they were moved to, plus those asked for, in order, each passed at its time, none lost, repeated or passed again; the time evaluated last is kept across the change. A request without any waypoint ahead leaves the old trajectory.",
     ["inputs", "histories", "schedules"], "all request times, generation durations, flights during generation and ways to take over",
     NOVAL + "and no generation is ever timed against the flight.",
     [DT, DTH],
     [("stitchActualTrajectoryWithNewWaypoints, timeFittingWithVehiclePosition, swapTrajectory, filterPassedWaypoints, checkStitchTrajectory", DT)],
     technique=DTM, note=DTN)
prop("C21", "Every request takes effect exactly once, whenever it comes",
     "Requests to set, append, move or modify waypoints lead to a trajectory through the waypoints that result from applying all requests in their order, whenever they come: before the first trajectory, while one is generated at any stage, just after, in bursts, during evaluations, or close to a waypoint, where they wait until it is left. None is lost or applied twice, none undoes another, modifications also apply to waypoints that still wait for their trajectory, and once fulfilled nothing changes any more; planning anew keeps the waypoints where they were moved to. While a request is pending or its trajectory is being generated, the status calls say so.",
     ["histories", "schedules"], "all sequences of requests, placed at every stage of waiting, generating and taking over",
     NOVAL + "and requests are never made while a trajectory is generated.",
     [DT, DTH],
     [("setWaypoints, appendWaypoint, modifyWaypoint, modifyWaypoints, todoThreadLoop, generateWaypointsForTheNextTrajectory", DT)],
     technique=DTM, note=DTN)
prop("C22", "One generator can be used by several threads",
     "Several threads may set, append, modify, evaluate, plot, set the speed, update the vehicle and read times, lists and status of one generator at the same time: without data races, deadlock or starvation of requests, no reference is torn or not finite: position, velocity and acceleration of one evaluation belong wholly to the trajectory before or wholly to that after a change (a move or a new trajectory); each such change is reported by getWasTrajectoryRegenerated to one thread, once, and not before the lists of waypoints show it; lists have increasing times, and every waypoint appended by any thread is in the final trajectory exactly once, in that thread's order.",
     ["schedules", "histories"], "all interleavings of users' threads and internal threads",
     "The tests use one thread and cannot see a race even if they run into it.",
     [DT, DTH, TS],
     [("mutexes todo, traj, future, parameters, dynamic_waypoints, vehicle_position, time_measure", DTH), ("worker thread and asynchronous generation", DT)],
     technique=TSAN, note=DTN + "Thread schedules are those of the machine; races are found by happens-before analysis, not only when they strike. Reports inside glog's time stamps (uninstrumented library) are left out.")
prop("C23", "A generator can be destroyed at any moment of its life",
     "Destroying a generator, in whatever phase of waiting, generating, flying or moving waypoints and from whatever thread, ends in bounded time with its worker threads gone and its memory freed, never touching freed memory or racing with its own threads.",
     ["schedules", "histories"], "all moments of a generator's life, several generators, other threads destroying them",
     NOVAL + "and generators are destroyed only after they are at rest.",
     [DTH, DT],
     [("~DynamicTrajectory, stop_process_, future_traj_", DTH)],
     technique="lifetime monitor (threads, live heap) over forced destruction points under AddressSanitizer, UndefinedBehaviorSanitizer and ThreadSanitizer", note=DTN)
prop("C24", "Shared trajectory values are copied and exchanged atomically",
     "A thread-safe trajectory value may be copied, moved, assigned, compared and read by several threads while others change it: each reader sees one of the values it held, whole; copies, comparisons with null and other values agree with what was stored, copies and moves share or take over the trajectory, and it is freed exactly when its last owner is gone, without races, deadlock or leaks, also when assigned to itself or crosswise.",
     ["schedules", "histories"], "all interleavings of operations on shared values; all sequences of operations in one thread",
     NOVAL + "and values are never shared.",
     [TS],
     [("ThreadSafeTrajectory", TS)],
     technique="sequential reference model plus linearizability-style whole-value monitor under stress, AddressSanitizer and ThreadSanitizer", note=DTN)
prop("C27", "Separate objects used by separate threads do not influence each other",
     "Optimisations, trajectories, polynomials, files and generators used each by one thread give the same results as when used alone, whatever other threads do with other objects, without data races on shared tables or state.",
     ["schedules"], "all combinations of library calls and flights at the same time in different threads",
     NOVAL + "and everything runs one after the other.",
     [S + "polynomial.cpp", S + "timing.cpp", DT],
     [("static tables and singletons", S + "polynomial.cpp, " + S + "timing.cpp")],
     technique="differential monitor (alone against together) under ThreadSanitizer and AddressSanitizer", note=DTN)
prop("C28", "The plotter shows every trajectory and finally the vehicle's last state",
     "The trajectory plotter draws every trajectory it is given, in space and each coordinate over time, with the positions the trajectory has from its start in steps of 0.1 s and its waypoints where and when they are now, and the vehicle where it was last reported; the first line and the latest three trajectories stay. An update is shown whenever it arrives, also while the plotter is drawing, the plotter works wherever it lives, plotting does not change the trajectory, and at the end all reported vehicle states are drawn over time and the drawing thread ends, without data races.",
     ["schedules", "histories"], "all histories of trajectories, moves and vehicle updates against all positions of the drawing thread; memory of any previous content",
     NOVAL + "the plotter is not built by the tests at all.",
     [PL],
     [("plotter and its drawing thread", PL)],
     technique="recording stand-in for the plotting package with delays inside the drawing thread, screen contents compared with an evaluated model; ASan + UBSan and TSan", note="matplotlibcpp.h is a vendored third party that needs Python's matplotlib; it is replaced by a stand-in that records what is drawn.")
