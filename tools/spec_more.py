EV = B + "envs"

prop("C03", "Environments honour the gym contract they declare",
     "Every observation returned by reset and step belongs to the declared observation space, which stays the same during "
     "the episode, and is not changed by later steps; every sample of the declared action space can be played, and the "
     "action space matches the configuration. "
     "Rewards are finite scalars (one number per step, also with several agents), termination flags are booleans, and "
     "infos carry the documented entries with the current values.",
     HIST, "all registered environments, working observation and action configurations, seeds and actions",
     "the tests check one episode of each environment with default configurations",
     [EV, EV + "/common/observation.py", EV + "/common/action.py", EV + "/common/abstract.py"],
     [("observation types and their space()", EV + "/common/observation.py"), ("action types", EV + "/common/action.py"),
      ("step, _info, define_spaces", EV + "/common/abstract.py")],
     "structured generation of configurations and episodes against the declared spaces",
     "sampled configurations; one known finding: continuous actions crash in four environments")

prop("C04", "Copying an environment gives an equal and independent environment",
     "A deep copy of an environment, taken at any moment of an episode, reproduces exactly the future of the original for "
     "the same actions (observations, rewards, flags, infos, vehicle states). "
     "Stepping or resetting either of the two never changes the other, whether or not the original was displayed before.",
     HIST, "all environments, configurations, moments of the copy, and futures of both",
     "the tests never copy an environment",
     [EV + "/common/abstract.py", B + "road", B + "vehicle"],
     [("AbstractEnv.__deepcopy__", EV + "/common/abstract.py")],
     "differential and metamorphic testing of copies against the original and against untouched replays",
     "sampled episodes; every vehicle attribute of the scene compared exactly")

prop("C05", "Scene preprocessors give a modified copy and leave the original alone",
     "Simplifying the scene, changing the traffic's class, setting a preferred lane, setting a field or calling a method on "
     "vehicles, and randomising behaviours return a new environment that differs from the original by exactly the announced "
     "modification. The controlled vehicles are never altered, the original environment is untouched, and both can be "
     "played on; a preferred lane is then sought by the traffic.",
     HIST, "all preprocessors and arguments, environments, and histories before and after",
     "one test calls the preprocessors and only checks that no exception is raised",
     [EV + "/common/abstract.py", B + "vehicle/behavior.py", B + "vehicle/controller.py"],
     [("simplify, change_vehicles, set_preferred_lane, set_route_at_intersection, set_vehicle_field, "
       "call_vehicle_method, randomize_behaviour", EV + "/common/abstract.py")],
     "model-based testing: the announced modification applied to a snapshot of the scene",
     "sampled; simplification compared at its documented distances")

prop("C06", "Time advances as configured, and looking changes nothing",
     "Each step simulates exactly simulation_frequency / policy_frequency frames of 1 / simulation_frequency seconds, "
     "stops at the first terminal frame, and a decision that is held gives the same motion however its time is cut into steps. "
     "Observing, asking for available actions, rewards or spaces, and rendering change neither the scene nor the "
     "future; under manual control the agent's actions are ignored.",
     HIST, "all environments, frequencies, action sequences and interleaved observations",
     "the tests run the default frequencies only",
     [EV + "/common/abstract.py"], [("step, _simulate, reset, render", EV + "/common/abstract.py")],
     "metamorphic testing of time slicing and of interleaved observers",
     "sampled frequencies; frames counted on the vehicles and the road")

prop("C19", "Kinematics observations report exactly the perceived vehicles",
     "The first row describes the observer and the next rows the nearest perceived vehicles, nearest along the lane first, with the configured "
     "features, relative to the observer unless absolute, mapped linearly from the feature ranges to [-1, 1] and clipped as "
     "configured; missing vehicles are rows of zeros, hidden ones (too far, behind when not seeing behind) never appear. "
     "Destinations are shown when intentions are observed, and every agent of a multi-agent observation gets its own.",
     HIST, "all scenes, feature lists, ranges and flags", "the tests check one shape",
     [EV + "/common/observation.py", B + "vehicle/kinematics.py", B + "road/road.py"],
     [("KinematicObservation", EV + "/common/observation.py"), ("Vehicle.to_dict", B + "vehicle/kinematics.py"),
      ("close_vehicles_to", B + "road/road.py")],
     "differential testing of generated scenes against an independent observation model",
     "sampled; ties within 1e-9 and border cases within 1e-6 not judged")

prop("C20", "Occupancy grids show the vehicles in the cells they occupy",
     "Each cell of the grid around the observer shows, for each configured feature, the value of a vehicle whose position "
     "falls in this cell, and zero when there is none; no vehicle inside the grid's extent is missed and none outside of it is shown. "
     "Size, step and feature ranges follow the configuration, also for grids that are not square.",
     HIST, "all scenes, grid extents, steps, features and ranges", "the tests check the shape of one default grid",
     [EV + "/common/observation.py"], [("OccupancyGridObservation", EV + "/common/observation.py")],
     "differential testing of generated scenes against an own rasterisation",
     "sampled; positions within 1e-6 of a cell border may fall on either side")

prop("C21", "Time-to-collision grids announce the meetings that constant speeds imply",
     "For each speed, lane and time cell of the grid, the value tells whether the observer, driving at this speed on this "
     "lane, meets a vehicle that keeps its speed and route at this time (one for a meeting of the bodies, one half for the "
     "safety margin, taking the worst), and zero otherwise. The observation is the window of this grid around the observer's lane and "
     "speed, and the finite decision process built on it has the corresponding states, transitions, rewards and terminal states.",
     ["inputs", "histories", "configurations"], "all scenes, speeds, lanes, time steps and horizons",
     "one test computes one grid for one vehicle",
     [EV + "/common/finite_mdp.py", EV + "/common/observation.py"],
     [("compute_ttc_grid, finite_mdp", EV + "/common/finite_mdp.py"), ("TimeToCollisionObservation",
      EV + "/common/observation.py")],
     "differential testing against an own constant-speed prediction, plus metamorphic relations",
     "sampled; meeting times on a cell edge may fall on either side; the finite_mdp package is replaced by a stand-in")

prop("C22", "Driving rewards are what the environments document",
     "The reward of highway, merge, roundabout, intersection and two-way environments is the documented weighted sum of "
     "collision, speed, lane and lane-change terms, linearly mapped to [0, 1] where announced, for every state and action, including "
     "speeds outside of the rewarded range, positions off the road or past its end, and several agents. "
     "A crash never gives a better reward than the same state without it, and the lane-keeping reward decreases with the "
     "distance to the lane that is followed.",
     HIST, "all states, configurations and actions", "the tests never look at a reward value",
     [EV], [("_reward", EV + "/highway_env.py, merge_env.py, roundabout_env.py, intersection_env.py, two_way_env.py, "
             "lane_keeping_env.py")],
     "differential testing against reference formulas; metamorphic order under crashes",
     "sampled; the merge reward's lower bound is not judged")

prop("C23", "Goal environments score achieved goals consistently",
     "The reward of a step equals what compute_reward gives for the observation's achieved and desired goals (plus the "
     "collision term where documented), minus a weighted power distance that is zero exactly at the goal, alone or in batches. "
     "Success is reported exactly when this reward passes the configured threshold, the episode ends exactly on "
     "crash, success of all agents or time, and the goal is on a parking spot and stays fixed during the episode.",
     HIST, "all goal pairs, states, actions, configurations", "the tests never look at goal rewards",
     [EV + "/parking_env.py", EV + "/summon_env.py", EV + "/common/observation.py"],
     [("compute_reward, _is_success", EV + "/parking_env.py"), ("KinematicsGoal", EV + "/common/observation.py")],
     "differential testing of generated goals and episodes against the definition",
     "sampled; within 1e-9 of the threshold not judged")

prop("C24", "Episodes end exactly when they should, and costs tell crashes",
     "In each driving environment an episode ends at a step if and only if its documented terminal condition holds in the state reached "
     "(crash, duration, end of the road, arrival, leaving the road when configured), for every agent concerned. "
     "The cost and the infos of the step agree with this state: crash flags, speeds, actions, and per-agent rewards and "
     "terminations in multi-agent environments.",
     HIST, "all environments, configurations, states and actions", "the tests never check when an episode ends",
     [EV], [("_is_terminal, _cost, _info", EV)],
     "model-based testing against own terminal conditions over generated histories",
     "sampled; frontier states within 1e-6 not judged")

prop("C25", "At regulated intersections exactly the vehicles without right of way yield",
     "When two vehicles' constant-speed predictions conflict within the horizon, the one on the lane of lower priority "
     "stops, and between equal priorities the one that is behind as seen from the other; a vehicle in no conflict, or that has right of way in all, "
     "keeps its speed. Yielding is enforced periodically, and vehicles resume their lane's speed after the yielding delay; "
     "the vehicles driven by an agent are never stopped by the rules.",
     ["inputs", "histories", "schedules"], "all crossing scenes, priorities, orders of vehicles and drives",
     "no test reaches the regulation", [B + "road/regulation.py"],
     [("RegulatedRoad", B + "road/regulation.py")],
     "differential testing against own predictions and rules; permutation of the vehicles",
     "sampled; a sandwich is used where the code's distance pre-check may hide a conflict of enlarged bodies")

prop("C26", "Roads are populated with consistent vehicles",
     "Vehicles created at random, on a lane, or from another vehicle have the announced lane, position, heading, speed and "
     "spacing, ahead of those already there, and reach every lane and speed they may. "
     "The first scene of each environment is the configured one after every reset, and over resets every destination, goal, "
     "heading and lane that it may draw occurs; in the intersection vehicles "
     "enter with the configured probability, never on top of others, and leave exactly once they have crossed, while the controlled ones stay.",
     HIST, "all networks, spacings, configurations, seeds and histories",
     "the tests only check the number of vehicles of one scene",
     [B + "vehicle/kinematics.py", EV, B + "road/objects.py"],
     [("create_random, make_on_lane, create_from", B + "vehicle/kinematics.py"), ("_make_vehicles, _spawn_vehicle, "
      "_clear_vehicles", EV)],
     "property-based testing of created vehicles and scenes; model of entering and leaving",
     "sampled; statistical clauses use fixed seeds and 5 standard deviations")

prop("C27", "Interval computations enclose every admissible value and trajectory",
     "Interval products, scalings, differences, sections, integrator bounds and changes of lane frame contain every value reached by "
     "points of their arguments, and are exact when the operation allows it, and the "
     "polytope of a parametrised matrix has exactly the vertices of its parameter box. "
     "The state interval of a linear parameter-varying system contains, at every step, its nominal state and "
     "every trajectory under admissible parameters and bounded perturbations, in its own and in the original coordinates.",
     ["inputs", "histories"], "all intervals, matrices, lanes, systems, parameter and perturbation histories",
     "one test checks one product of intervals", [B + "interval.py"],
     [("interval operations, polytope, LPV", B + "interval.py")],
     "exact extremal oracles, and random admissible trajectories against the predicted interval",
     "sampled; Euler steps that preserve the order of bounds, well-conditioned bases, straight lanes")

prop("C28", "The rendered image and camera show the present scene, and keys drive the agent",
     "Bodies and the lines of all lanes inside the image are drawn at the pixels of their real place, heading and size, with the documented colours (and, "
     "when asked for, each vehicle's trail of the last two seconds and the planned trajectory), and nothing is drawn elsewhere; "
     "the image is always that of the present state: after steps, resets and other environments' rendering; rendering never alters the episode. "
     "Grayscale observations stack the weighted images, latest last. Positions project around the observer with the current zoom and offset, "
     "and in manual control each key gives its documented action on enabled axes only.",
     HIST, "all scenes, screen sizes, scalings, event sequences", "the tests only check an image's shape and that it is not uniform",
     [EV + "/common/graphics.py", B + "road/graphics.py", B + "vehicle/graphics.py", EV + "/common/abstract.py", EV + "/common/observation.py"],
     [("EnvViewer, EventHandler", EV + "/common/graphics.py"), ("WorldSurface, LaneGraphics", B + "road/graphics.py"),
      ("VehicleGraphics", B + "vehicle/graphics.py"), ("GrayscaleObservation", EV + "/common/observation.py")],
     "differential testing of generated scenes, frame stacks and events against own projection and colours",
     "sampled; pixels at the edge of a body are not judged; SDL's offscreen driver stands for a screen")

prop("C29", "Each of several agents is treated as a single one would be",
     "In a multi-agent environment the i-th observation and space are those of a single observer on the i-th controlled vehicle, and the i-th "
     "action reaches that vehicle only, once per step; renumbering the agents renumbers observations, rewards and ends, and changes nothing else. "
     "With one agent it is the single-agent environment, and the tuple version returns the reward and end of each agent, over whole episodes.",
     HIST, "all numbers of agents, configurations, orders, actions", "the tests run one multi-agent episode and check its shapes",
     [EV + "/common/observation.py", EV + "/common/action.py", EV + "/intersection_env.py", EV + "/highway_env.py", EV + "/common/abstract.py"],
     [("MultiAgentObservation", EV + "/common/observation.py"), ("MultiAgentAction", EV + "/common/action.py"),
      ("MultiAgentWrapper", EV + "/common/abstract.py")],
     "metamorphic testing: permuted agents, one agent, twin single observers, over generated episodes",
     "sampled; up to four agents; continuous actions only where supported")

prop("C30", "Predicted trajectories are the ones that get driven, and histories recorded",
     "The prediction of a plan gives the states reached when the given actions are executed at the given times, and leaves the vehicle unchanged. "
     "Constant-speed prediction follows the planned lanes for any times, matches the states then driven at constant speed on a straight "
     "itinerary, and does not alter the route. The recorded history contains the last states, newest first, at most thirty.",
     HIST, "all vehicles, plans, routes, times", "the tests never predict a trajectory",
     [B + "vehicle/controller.py", B + "vehicle/kinematics.py", B + "road/road.py"],
     [("predict_trajectory, predict_trajectory_constant_speed", B + "vehicle/controller.py"),
      ("position_heading_along_route", B + "road/road.py"), ("create_from, history", B + "vehicle/kinematics.py")],
     "differential testing of predictions against executed plans and an own walk along the lanes",
     "sampled; unspecified lane numbers only on single-lane roads")

prop("C31", "Data on drivers are recorded, explained, and used to tell drivers apart",
     "Each decision of a linear vehicle is recorded with features its parameters explain; the estimate, Gramian and radius are those "
     "of regularised least squares whatever the order of the data, and dynamics polytopes come from it, projected on the prior box. "
     "Exact data of an admissible parameter are never rejected, and an observation is rejected exactly beyond the confidence bound. "
     "A vehicle with several candidate routes keeps all complete routes, the followed one included, and drops clearly different ones; its copies are independent.",
     HIST, "all data, parameters, options, drives and forks", "the tests check one estimation on one drive",
     [B + "vehicle/behavior.py", B + "vehicle/uncertainty/estimation.py", B + "utils.py"],
     [("add_features", B + "vehicle/behavior.py"), ("RegressionVehicle, MultipleModelVehicle", B + "vehicle/uncertainty/estimation.py"),
      ("confidence_ellipsoid, confidence_polytope, is_consistent_dataset", B + "utils.py")],
     "differential testing against own least squares; metamorphic order; simulated drivers at forks",
     "sampled; well-conditioned data; containment in the clipped polytope is not claimed")

prop("C32", "Interval vehicles enclose all drivers they stand for and crash in the worst case",
     "The observed state interval contains, at each step, every linear driver whose parameters are within the ranges, and the model itself, in any direction and "
     "behind other certain or uncertain vehicles; the default prediction does so on a free road along x. "
     "One independent record is kept per step, the nominal state is that of the linear vehicle, and a crashed vehicle is certain. "
     "A worst-case collision is reported exactly when the other vehicle touches some possible position; followed lanes and polytopes are those of the model.",
     HIST, "all parameters in the ranges, drives, directions, boxes and poses", "the tests never use interval vehicles",
     [B + "vehicle/uncertainty/prediction.py", B + "interval.py"],
     [("observer_step, partial_observer_step, check_collision", B + "vehicle/uncertainty/prediction.py")],
     "random admissible drivers against the interval; exact oracle of the worst-case collision",
     "sampled; slip below the observer's noise, no lane change or overtaking, exactly-when for axis-aligned vehicles")

prop("C33", "Lane keeping: measurements, reference and records are those of the true state",
     "In the lane-keeping environment, each observed state and state derivative differs from the true one by independent noise within the "
     "configured level (exact at level zero, and spread over the range otherwise); the reference is the lateral position and heading of the lane being followed, "
     "at rest, this lane being replaced by the next one when left. An observation describes the state it was taken in and does not change afterwards. "
     "The true state before each step is recorded, and with a predictor attached its current interval too, for good.",
     HIST, "all noise levels, attributes, frequencies, actions and vehicle poses", "the tests only check shapes after one step",
     [EV + "/lane_keeping_env.py", B + "vehicle/dynamics.py"],
     [("state, derivative, reference_state, store_data, step", EV + "/lane_keeping_env.py"), ("AttributesObservation", EV + "/common/observation.py")],
     "generated episodes against the exact state, own following of lanes and own records",
     "sampled; default action shape; the control convention of the predictor is not claimed")

prop("C34", "The maps of the scenarios are drivable and laid out as documented",
     "In every scenario, each entry leads to each exit by the documented roads: a vehicle sent there arrives without leaving the roads. Roads that follow each other "
     "join without gap, kink or change of width, and a lane that ends has its obstacle. Consecutive lanes of a road lie side by side to the right, "
     "separated by one striped line, between continuous edges. The four arms of the intersection and of the roundabout are one arm turned, lie on the named side, and have "
     "the documented right of way. Parking spots face each other, and overlap neither each other nor the aisles.",
     ["configurations", "inputs"], "all scenarios, configured lane counts, trips, speeds and places", "the tests never look at a map",
     [EV + "/highway_env.py", EV + "/merge_env.py", EV + "/roundabout_env.py", EV + "/intersection_env.py", EV + "/two_way_env.py", EV + "/parking_env.py",
      EV + "/summon_env.py", EV + "/lane_keeping_env.py", B + "road/road.py", B + "vehicle/controller.py"],
     [("_make_road, _create_road", EV + "/*_env.py"), ("straight_road_network", B + "road/road.py"), ("follow_road, plan_route_to", B + "vehicle/controller.py")],
     "generated trips of a vehicle on the real map, and metamorphic comparison of turned arms, mirrored spots and neighbouring lanes",
     "sampled; empty roads; built-in scenarios; branches of the roundabout overlap the ring, so they are only required to start and end on it")
