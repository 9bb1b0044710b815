#!/usr/bin/env python3
"""Rewrites known_findings.jsonl from the list below (run by hand, never by a check)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # property, start of the commit's subject after "fix: ", what failed
 ("C02", "compare polynomials of different size", "comparing polynomials of different size aborts"),
 ("C03", "report incomplete root finding", "extrema silently missing when the root finder stops early"),
 ("C06", "report incomplete root finding", "maximum speed too small when the root finder stops early"),
 ("C06", "find the minimum magnitude of a single dimension", "minimum of |x| missed at zero crossings of a single dimension"),
 ("C05", "sample ranges from their start time", "ranges starting in a later segment sampled at other times than stated; samples beyond the end"),
 ("C08", "append dimensions of different order", "appended dimensions of another order keep another time scale"),
 ("C08", "keep the segment times of a single dimension", "a single dimension of a trajectory loses its segment times"),
 ("C09", "report unreadable or inconsistent", "reading a missing or inconsistent file aborts the process"),
 ("C09", "do not write segment times behind", "more segments than samples: writes behind the table"),
 ("C10", "drop free constraints of an earlier problem", "a reused optimiser keeps free constraints of the earlier problem"),
 ("C11", "solve the linear optimisation on equilibrated", "segment times of different size: result far from optimal"),
 ("C12", "bound the free derivatives that", "limits applied to the wrong free derivatives"),
 ("C12", "return the best solution", "the last tried instead of the best solution returned"),
 ("C12", "do not scale times to limits", "Mellinger method without limits divides by missing limits"),
 ("C13", "apply the time factor", "time factor of the velocity ramp ignored"),
 ("C13", "estimate a positive time", "zero time between coincident vertices"),
 ("C15", "do not take a reflection", "reflections accepted as rotation matrices"),
 ("C15", "recover rotation vectors of rotations close", "rotation vector wrong or NaN near half a turn"),
 ("C15", "return a pitch of 90 degrees", "NaN pitch at 90 degrees"),
 ("C15", "mark timestamps that were not given", "uninitialised time stamp"),
 ("C16", "complete the second derivative", "acceleration of a moved waypoint's displacement wrong"),
 ("C16", "ignore modifications of a waypoint at the very time", "NaN references when a waypoint is moved as it is passed"),
 ("C16", "initialise waypoint and vehicle positions", "uninitialised waypoint positions"),
 ("C17", "initialise waypoint and vehicle positions", "uninitialised vehicle position"),
 ("C26", "report the maximum of samples", "maximum of negative samples is tiny positive"),
 ("C26", "let several threads use timers", "data race on the timers of the process"),
 ("C27", "let several threads use timers", "generators used from several threads race on the timers of the process"),
]
FIXED += [
 ("C21", "keep requests that arrive while a trajectory is generated", "waypoints set, appended or moved during a generation are forgotten"),
 ("C20", "keep the time evaluated last when the trajectory is swapped", "the swap sets the time evaluated last back to that of the request"),
 ("C20", "fit the time of a new trajectory without the displacements", "the time fit of a new trajectory adds the displacements of the old one"),
 ("C20", "keep all waypoints ahead when a trajectory is stitched", "waypoints ahead are dropped or the first reference jumps when stitching"),
 ("C22", "swap trajectories in one thread at a time", "two threads evaluating swap the same trajectory (std::future_error)"),
 ("C24", "compare and copy shared trajectories under their lock", "comparison and copies of shared trajectories race with assignments"),
 ("C23", "wait for a running generation before members are destroyed", "destroying a generator during a generation uses destroyed members"),
 ("C22", "read pending requests and parameters under their locks", "data races on pending requests and parameters"),
]
FIXED += [
 ("C04", "do not access segments of an empty trajectory", "evaluating an empty trajectory at time 0 reads behind its segments"),
 ("C04", "allow results to replace the objects they are made from", "setSegments(t.segments()) loses the segments, addSegments(t.segments()) reads freed memory"),
 ("C08", "allow results to replace the objects they are made from", "appending dimensions or trajectories into an operand loses data"),
 ("C14", "allow results to replace the objects they are made from", "choosing dimensions of a vertex into itself loses its constraints"),
 ("C14", "compare vertices of different dimension without aborting", "comparing vertices of different dimension aborts"),
 ("C02", "add polynomials of different size without aborting", "the sum of polynomials of different size aborts"),
 ("C03", "accept a pair of real roots only if both are roots", "the root finder accepts pairs of real roots of which one is none (residual up to 1e-3)"),
 ("C28", "draw the updates that arrive while the plotter is drawing", "an update that arrives while the plotter draws is never shown"),
 ("C28", "initialise the plotter's flags before its thread reads them", "the plotter's thread reads flags before they are set and may end or draw at once"),
]
FIXED += [
 ("C21", "let waypoints without a name hold back the next trajectory like others", "a waypoint without a name is lost when a trajectory is generated shortly before it"),
 ("C20", "plan the next trajectory for the time compensated, as it is flown", "after a late take-over waypoints ahead are lost and a trajectory still flown is replaced by one at rest"),
 ("C19", "displace the reference from where it is when a waypoint is moved", "the reference jumps when a waypoint is moved, or is not displaced at all after a late take-over"),
 ("C20", "forget the time and displacements of a waypoint that is asked for again", "a waypoint of an earlier list that is set or appended again is dropped as passed, or passed beside its position"),
 ("C09", "report trajectories that could not be written to a file", "success is reported for a file of which nothing or only a part was written, e.g. on a full disk"),
 ("C09", "refuse a directory where segments are to be read from", "reading a directory ends in an exception that is not YAML's"),
 ("C20", "prepare the next trajectory for one evaluated time, after the last was taken over", "a waypoint ahead is lost when the user evaluates, or a trajectory is taken over, between two looks of the internal thread at the time"),
 ("C22", "report each change of the trajectory to getWasTrajectoryRegenerated once", "a change that comes between the reading and the reset of the report is never reported"),
 ("C22", "report a new trajectory once its waypoints have been taken over", "a thread told of a new trajectory is still given the waypoints of the one before"),
 ("C22", "do not let a modification in between displace only some of the references", "position and velocity of one evaluation, one without and one with a displacement applied meanwhile"),
]
KNOWN = []
log = {}
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = line.split(" ", 1)
    log[s] = h
out = []
for prop, subj, what in FIXED:
    m = [h for s, h in log.items() if s.startswith("fix: " + subj)]
    assert len(m) == 1, subj
    out.append(dict(property=prop, status="fixed", commit=m[0], what=what,
                    line="fixed: property=%s %s %s" % (prop, m[0], what)))
for prop, key, what in KNOWN:
    out.append(dict(property=prop, status="known", key=key, what=what))
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(out), "findings")
