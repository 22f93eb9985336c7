TEXT = {
"C01": "Oracle: the same run again. Twins are run under different states of the global `random` and `numpy.random` generators, after other uses of the instance, and in a server process with another PYTHONHASHSEED (`hv/remote.py`). Outcomes and all vehicle states are compared bit for bit.",
"C02": "Oracle: each environment alone. Interleavings of 2-3 environments, deep comparison of the user's dictionary, of the class defaults and of a second instance; `pollution`, `fresh` and `configured` use `hv/polluter.py`, a fork server: every rollout is played in its own fork of a process that has used nothing yet, alone, mixed with others, and after others.",
"C03": "Oracle: the declared spaces (own containment test incl. dtype and shape), documented info keys, types of reward and flags; observations are kept and re-compared at the end (aliasing).",
"C04": "Oracle: the original's own future, and an untouched replay of it from the seed. Attribute-by-attribute snapshots of both scenes detect sharing.",
"C05": "Oracle: snapshot of the original before, announced difference on the copy; both are then played to detect shared state. `prefer` checks the effect: after some seconds vehicles are on the preferred lane.",
"C06": "Oracle: arithmetic of frequencies (frames per decision, time, displacement of an undisturbed vehicle), the same time cut differently, each decision of the agent recorded once where it reaches the vehicle, and the same episode with and without looking (render, observe, available actions, copies).",
"C07": "Oracle: own model of the meta-actions (lane target and speed index); availability judged by playing the action on a copy.",
"C08": "Oracle: own kinematic bicycle step, saturation, linear maps of the action ranges; geometric radius of the traced circle.",
"C09": "Oracle: own tire model (state derivative), Euler steps, and for the linearised matrices a first-order comparison with the non-linear derivative by differences; also with tires changed after construction.",
"C10": "Oracle: own parametrised curves; inverse both ways; tangents by finite differences; definitions of the predicates.",
"C11": "Oracle: exhaustive search over the generated graph (all simple paths, breadth-first distances, nearest lane by definition).",
"C12": "Oracle: own rules for the next lane (route, same id when possible, nearest otherwise), connected route validity; drives through the intersection and the roundabout that must arrive.",
"C13": "Oracle: exact separating-axis test on own corners; rigid motions.",
"C14": "Oracle: own overlap test at every step of a pile-up or of an episode; conservation rules of wrecks; pairwise speeds.",
"C15": "Oracle: convergence bounds (steering limit, settling time), exponential speed law, symmetries of the closed loop, index maps of speed grids.",
"C16": "Oracle: own IDM and linear laws with own search of the followed vehicle; platoons with a braking leader for safety.",
"C17": "Oracle: own MOBIL decision (necessary and sufficient) with own IDM accelerations of the six vehicles concerned.",
"C18": "Oracle: own search on all bodies.",
"C19": "Oracle: own table of rows (sorting, relative features, normalisation), for every agent; translation invariance. Scenes come from traffic and from bodies scattered at random.",
"C20": "Oracle: own assignment of bodies to cells.",
"C21": "Oracle: own constant-speed prediction per lane and speed; own slice of the grid; own MDP transitions with a recording stand-in of `finite_mdp`.",
"C22": "Oracle: own reward formulas from the documentation; monotonicity under an injected crash.",
"C23": "Oracle: definition of the goal distance, batches, success threshold, consistency of step reward and `compute_reward`.",
"C24": "Oracle: own terminal conditions evaluated on the scene reached, with injected crashes and displacements.",
"C25": "Oracle: own predictions and conflict test, own priority rule; two predictions (with and without the code's distance pre-check) sandwich the verdict. Vehicles due at one place together (`gathering`, `meeting`) exercise chains of priorities and resuming.",
"C26": "Oracle: announced spacing, lanes, speeds; snapshots of the scene around each decision for entering and leaving; frequencies against the configured probability at 5 standard deviations with fixed seeds; over enough resets (a miss by chance is below 1e-5) every option of the scenes' random choices must occur.",
"C27": "Oracle: extremal values by enumeration of the vertices (exact), random interior points (enclosure), random admissible trajectories of the LPV system.",
"C28": "Oracle: own world-to-pixel projection and documented colours at sample points of bodies and lines; own grayscale weighting; own key table; own account of the places a vehicle has been, for trails. Lines are looked up along both borders of every lane of eight kinds of roads, around any place of them.",
"C29": "Oracle: twin environments with one observer, permuted agents, single-agent environments.",
"C30": "Oracle: the real execution of the plan on a twin, and own walk along the lanes.",
"C31": "Oracle: own regularised least squares; simulated drivers of a known lane at generated forks.",
"C32": "Oracle: random and extreme drivers of the parameter box, simulated beside the interval (rear to front, as the interval assumes that the front vehicle stays the same); a single observer step must enclose one step of the uncertain linear model from any interval state; exact SAT of the other body against the Minkowski sum of the box and the vehicle.",
"C33": "Oracle: the simulated vehicle's own state, the derivative measured by stepping a copy of the vehicle, and the geometry of the two lanes followed in order. Vehicles are also dropped anywhere around both lanes. Noise must stay within the level of its own attribute, and its samples must not be constant, shared between components or between attributes. Every record is compared with all states met, after every step.",
"C34": "Oracle: the node order of the documented trips, the compass of the named arms, and the geometry of the map itself (turned, mirrored, followed end to end). A vehicle is driven along each generated trip and watched at every step.",
}
