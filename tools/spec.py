#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json.  Usage: tools/spec.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOT_CLAIMED = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe)))


HIST = ["configurations", "histories", "inputs"]
B = "highway_env/"

prop("C01", "A seeded environment is reproducible",
     "Two runs of the same environment id with the same configuration, seed and action sequence give identical "
     "observations, rewards, termination flags, infos and vehicle states at every step, whatever the state of Python's "
     "and numpy's global random generators, and also in another process with another string-hash seed. "
     "Calling seed then reset on an instance that already ran gives the same episode as a new instance. "
     "In environments with a random scene, different seeds do give different scenes.",
     HIST, "all environment ids, working configurations, seeds, action sequences, prior uses of the instance and "
     "processes", "the tests run one unseeded episode per environment and never compare two runs",
     [B + "envs/common/abstract.py", B + "envs", B + "road/road.py", B + "vehicle/behavior.py"],
     [("seed() and np_random, passed to the road", B + "envs/common/abstract.py"),
      ("random choices of vehicles and routes", B + "road/road.py, " + B + "vehicle/behavior.py")],
     "differential replay of generated episodes (twin, reused instance, other process)",
     "sampled episodes of up to 5 steps; every outcome and vehicle state compared exactly")

prop("C02", "Environment instances do not influence each other",
     "Environments whose steps are interleaved in one process behave exactly as if each ran alone, and using one "
     "environment, or changing the configuration of one, does not change later rollouts of another one. "
     "Using an environment modifies neither the configuration dictionary given by the user nor the defaults that later "
     "instances of any environment start with, and editing that dictionary at top level afterwards does not reconfigure "
     "a running environment.",
     ["schedules", "configurations", "histories"], "all pairs or triples of configured environments, interleavings of "
     "their steps, and configurations", "the tests never have two live environments",
     [B + "envs", B + "vehicle", B + "envs/common/abstract.py"],
     [("instance configuration copied from default_config", B + "envs/common/abstract.py"),
      ("per-instance vehicle parameters", B + "envs/roundabout_env.py, " + B + "envs/intersection_env.py")],
     "metamorphic interleaving: generated schedules against solo rollouts; fresh-process before/after comparison",
     "one known finding: intersection environments write three parameters on the class of their traffic; the "
     "comparison puts these back")

prop("C07", "Meta-actions do what they say, and are available when they can",
     "Each discrete meta-action moves the target lane by one adjacent open reachable lane, or the target speed by one "
     "notch from the level closest to the current speed within the speed grid, or nothing, and affects nothing else; "
     "with several agents each vehicle gets its own action. When no manoeuvre is in progress, the available actions are IDLE and exactly those that would change the target, all "
     "valid for the configured axes. On a free road, decided lane changes and speed changes complete.",
     HIST, "all discrete action configurations, environments, seeds and action sequences",
     "tests check one lane change and one acceleration on an empty straight road",
     [B + "envs/common/action.py", B + "vehicle/controller.py", B + "envs/common/abstract.py"],
     [("DiscreteMetaAction", B + "envs/common/action.py"), ("ControlledVehicle.act, MDPVehicle.act",
      B + "vehicle/controller.py"), ("get_available_actions", B + "envs/common/abstract.py")],
     "property-based testing against a reference of targets; availability judged by playing each action",
     "sampled; availability on settled states only")

prop("C08", "Continuous control follows the kinematic bicycle model",
     "A vehicle without tire dynamics moves, step by step, as the kinematic bicycle model with half-length rear axle says "
     "for the commanded steering and acceleration, its speed stays within its limit in both directions, and a wreck "
     "ignores commands, drives straight and brakes to a stop. "
     "Continuous actions map linearly from [-1, 1] to the configured acceleration and steering ranges on the enabled "
     "axes, being clipped first when clipping is on, and the given action is left as it was.",
     ["inputs", "histories", "configurations"], "all initial states, command sequences, time steps and continuous action "
     "configurations", "tests check five single steps",
     [B + "vehicle/kinematics.py", B + "envs/common/action.py"],
     [("Vehicle.step, clip_actions", B + "vehicle/kinematics.py"), ("ContinuousAction", B + "envs/common/action.py")],
     "model-based testing against an independent kinematic bicycle model",
     "sampled state and command sequences, relative tolerance 1e-6; commands held beyond the speed limit are re-issued")

prop("C09", "The dynamical bicycle follows its linear tire model",
     "Each step of the dynamical bicycle vehicle is an explicit Euler step of the documented lateral dynamics (slip "
     "angles, linear tire forces, kinematic regime below 1 m/s), and its reported state and derivative agree with them. "
     "Its linearised lateral dynamics and their affine parametrisation reproduce the tire model to first order, and "
     "mirrored states and steering give mirrored motion.",
     ["inputs", "histories"], "all states, commands, time steps",
     "tests compare matrices at one state, in tests outside the stable baseline",
     [B + "vehicle/dynamics.py"], [("BicycleVehicle", B + "vehicle/dynamics.py")],
     "model-based testing against independent equations; first-order consistency; mirror metamorphic relation",
     "sampled; switching surface and fast reversing excluded")

prop("C10", "Lane coordinates and world coordinates are exact inverses",
     "For straight, sinusoidal and circular lanes the world position of lane coordinates lies on the documented curve at "
     "the given abscissa and lateral offset, the two conversions are inverse of each other, and the heading is tangent "
     "to the lane. On-lane (with margin), reachability, end-of-lane and distance queries agree with these coordinates, the lane's width and "
     "its length.", ["inputs"], "all lanes of the three shapes (arcs up to half a turn), all points",
     "tests check one lane shape at a few points", [B + "road/lane.py"],
     [("position, local_coordinates, heading_at", B + "road/lane.py"), ("on_lane, is_reachable_from, after_end, distance",
      B + "road/lane.py")], "round-trip and independent geometric model over generated lanes and points",
     "sampled; tolerance 1e-6; points within 1e-6 of a decision boundary not judged")

prop("C11", "Road network queries agree with the road graph",
     "The closest lane minimises the lane distance (and heading error when given) over all lanes, and is the lane a "
     "vehicle is on at any time, from its position and heading; lane lookup returns "
     "the lanes that were added, a road with a single lane needing no lane index; side lanes are the adjacent lanes of "
     "the same road. Path enumeration gives every simple path once, shorter first, and the shortest path is a shortest "
     "one or empty when there is none; road connectivity along a route, up to a depth, is that of the graph.",
     ["inputs", "programs"], "all road graphs, positions, routes and queries", "tests check one fixed graph",
     [B + "road/road.py"], [("RoadNetwork", B + "road/road.py")],
     "differential testing against brute-force graph and geometry searches over generated networks",
     "sampled networks of up to 7 nodes")

prop("C12", "Routes are planned, chosen and followed consistently",
     "At the end of a lane a vehicle goes on to the road planned by its route, dropping travelled steps, or else to a "
     "road that starts there, keeping its lane number when lane counts match and taking the closest lane otherwise. "
     "Planned routes are contiguous shortest paths to the destination, the routes offered at the next intersection are "
     "those the network allows, and the pose at a distance along a route lies on the corresponding lane. "
     "Vehicles driving alone through the intersection or roundabout traverse their route in order and reach its end.",
     ["programs", "histories", "inputs"], "all networks, routes, positions and destinations",
     "the tests contain one path query", [B + "road/road.py", B + "vehicle/controller.py"],
     [("next_lane, next_lane_given_next_road, position_heading_along_route", B + "road/road.py"),
      ("plan_route_to, follow_road, set_route_at_intersection", B + "vehicle/controller.py")],
     "model-based testing of route queries; simulated drives with route-order invariants",
     "sampled networks of up to 7 nodes; drives through two real maps")

prop("C13", "Collision detection is exact for oriented boxes",
     "Two road bodies are reported in collision exactly when their oriented bounding boxes, shrunk to 90% of their "
     "length and width, overlap; the test is symmetric and invariant under translation and rotation. "
     "Point-in-rectangle and point-in-ellipse tests are exact, landmarks are hit without crashing vehicles, and bodies with collisions "
     "disabled never collide.", ["inputs"], "all pairs of poses and sizes", "one test samples a few rectangles",
     [B + "utils.py", B + "vehicle/kinematics.py"], [("rotated_rectangles_intersect, point_in_rotated_rectangle, "
      "point_in_ellipse", B + "utils.py"), ("check_collision", B + "vehicle/kinematics.py")],
     "differential testing against an own separating-axis distance, with metamorphic rigid motions",
     "sampled; contacts within 1e-6 not judged")

prop("C14", "Collisions have consistent and final consequences",
     "After each simulation step a vehicle is crashed if and only if it already was or its box overlaps that of a "
     "vehicle or obstacle (unless collisions are disabled for one of them); both vehicles of an impact take the smaller of their two speeds, wrecks stop deciding, go "
     "straight and slow down, and objects are marked hit exactly when touched and never move. "
     "Crashes are final within an episode and reported in the step info.",
     ["histories", "inputs"], "all piles of vehicles and objects, commands and episodes",
     "one test hits one obstacle", [B + "vehicle/kinematics.py", B + "road/road.py"],
     [("check_collision, clip_actions", B + "vehicle/kinematics.py"), ("Road.step", B + "road/road.py")],
     "stateful simulation of generated piles and episodes with invariants from an own overlap test",
     "sampled; speeds after an impact judged for isolated pairs")

prop("C15", "Low-level controllers track lane and speed",
     "Starting from a bounded error, a controlled vehicle converges to the centre line, the direction and the target "
     "speed of its lane with steering within its limit, and its speed error decays exponentially without overshoot. "
     "The closed loop commutes with translating, rotating and mirroring the scene. "
     "Discrete-speed vehicles map speeds to the nearest grid index and back, and copying a vehicle into another "
     "class keeps its dynamics and goals.", ["inputs", "histories"], "all lanes, initial errors, targets and scenes",
     "three tests on a straight road", [B + "vehicle/controller.py", B + "vehicle/behavior.py"],
     [("steering_control, speed_control, index_to_speed, speed_to_index, create_from", B + "vehicle/controller.py")],
     "simulation with convergence bounds; metamorphic rigid motions and mirror; reference speed grid",
     "sampled; curvature compatible with the speed")

prop("C16", "Car following obeys the driver model and does not rear-end",
     "Each traffic vehicle applies the acceleration of its model (IDM with projected relative speed, or the linear "
     "law), computed for the body ahead of it on its lane and limited to 6 m/s2; crashed drivers decide nothing. "
     "Acceleration does not decrease when the gap, the leader's speed (while the desired gap is positive) or the target "
     "speed increases. IDM platoons starting at their desired gaps never hit a leader braking at up to 4 m/s2, nor "
     "reverse, and IDM vehicles stop before obstacles.",
     ["inputs", "histories"], "all straight-road scenes, driver classes, gaps, speeds, leader profiles",
     "two tests stop one vehicle before an obstacle", [B + "vehicle/behavior.py"],
     [("IDMVehicle.acceleration, desired_gap; LinearVehicle.acceleration", B + "vehicle/behavior.py")],
     "differential testing against own IDM and linear laws; monotonicity relations; simulated platoons",
     "sampled; leaders brake at up to 4 m/s2")

prop("C17", "Lane changes are decided by safety, gain, route and pace",
     "A traffic vehicle that is not changing lane decides at most once per decision period, and targets an adjacent "
     "open lane exactly when the follower there would not have to brake more than the allowed imposed braking and "
     "either the politeness-weighted acceleration gain reaches the threshold or, if its route asks for a specific lane, that lane is "
     "on that side and reachable without unsafe own braking. "
     "A change in progress is only abandoned, back to the current lane, for another vehicle entering the same lane "
     "within the desired gap ahead; vehicles with lane changes disabled never change target.",
     ["inputs", "histories"], "all multi-lane scenes, driver classes and decision parameters",
     "no test makes a traffic vehicle change lane", [B + "vehicle/behavior.py"],
     [("change_lane_policy, mobil", B + "vehicle/behavior.py")],
     "differential testing of single decisions against an own MOBIL model; pace and adjacency over histories",
     "sampled; decisions within 1e-7 of a threshold not judged; with two admissible lanes either is accepted")

prop("C18", "Neighbour queries find the right bodies",
     "The preceding and following bodies on a lane are the nearest ones ahead and behind among vehicles and obstacles "
     "(not landmarks), including those level with the vehicle. The closest vehicles within a radius are exactly those within it, nearest "
     "along the lane first, limited in number and optionally excluding those behind, and signed lane distances and the on-road flag "
     "agree with the lane geometry.", ["inputs"], "all road scenes and queries", "one test checks one front vehicle",
     [B + "road/road.py", B + "vehicle/kinematics.py"], [("neighbour_vehicles, close_vehicles_to", B + "road/road.py"),
      ("lane_distance_to, on_road", B + "vehicle/kinematics.py")],
     "differential testing against brute-force searches", "sampled; boundary cases (1e-6) not judged")

exec(open(os.path.join(HERE, "tools", "spec_more.py")).read())


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks = []
    for p in P:
        if not os.path.exists(os.path.join(HERE, "hv", "props", p["id"].lower() + ".py")):
            raise SystemExit("no check for " + p["id"])
        checks.append({"property": p["id"], "quick_cmd": "./run_check.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough ./run_check.py " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "property-based testing: " + p["technique"],
                       "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NOT_CLAIMED,
                   "notes": "Generated by tools/spec.py. No hooks in /repo. Replay a case with "
                            "./run_check.py <ID> --replay FILE."}, f, indent=1)
        f.write("\n")


main()
