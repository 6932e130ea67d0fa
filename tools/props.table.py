TESTS = "The existing tests are ten unit tests of the math helpers plus one vehicle driving along one straight link; "
NOTE = "Complete within the bounds listed per suite in the evidence file; nothing is sampled. Trusts the compiler and the harness's own reading of the public accessors; says nothing about larger networks, longer histories or other parameter values than those enumerated."

prop("C01", "Traffic signals never release conflicting movements together",
 "A signal movement turns green only after every movement that is declared to conflict with it has been showing red for at least that movement's clearance time. A movement always goes from green through amber, for at least its amber time, before red; when conflicts are mutual and no phase asks for two conflicting movements, two conflicting movements are never both non-red. The links of a movement are open exactly while it shows green.",
 ["configurations", "schedules", "histories"], "every signal plan (movements, conflict masks, amber and clearance times, phases) and every sequence of time steps",
 TESTS + "no test touches a traffic light.",
 ["src/light.rs", "src/simulation.rs"],
 [("gate that tests the conflicting movements before turning green", "src/light.rs can_turn_green"), ("per-movement state transition", "src/light.rs TrafficLight::step")],
 [("state/since", "displayed colour and how long it has been displayed", "src/light.rs Movement")],
 ["TrafficLight::state", "TrafficLight::get_states"],
 ("temporal safety rules evaluated at every step of every plan", NOTE))

prop("C02", "Traffic signals carry out their programme exactly",
 "A signal runs its phases cyclically in order. In a phase, exactly the movements it names become and stay green, each as soon as the conflicting movements are cleared; the others show amber for their amber time and then red. The next phase begins once all named movements have been green, and the phase has been running, for the phase's duration; a signal with no phases stays red.",
 ["configurations", "schedules", "histories"], "every signal plan and every sequence of time steps, at every movement index",
 TESTS + "no test touches a traffic light, let alone its timing.",
 ["src/light.rs"],
 [("phase advance", "src/light.rs update_phase"), ("movement activation", "src/light.rs apply_phase")],
 [("phase/since", "current phase and time in it", "src/light.rs TrafficLight")],
 ["TrafficLight::state"],
 ("step-by-step conformance with a reference automaton of the signal programme", NOTE))

prop("C03", "Closed links and red signals are not entered",
 "A vehicle that can still stop comfortably before the start of a closed link (or one whose signal is red or amber) stops in front of it and stays there as long as it is closed, wherever on its route the link lies and whoever is ahead. It drives on when the link opens. Only a vehicle already committed when the link closed may pass.",
 ["histories", "schedules", "configurations"], "every moment of closing and opening, by hand or by a signal, for every vehicle kind, approach speed and network position",
 TESTS + "no test sets a control.",
 ["src/link.rs", "src/vehicle.rs", "src/simulation.rs", "src/light.rs"],
 [("stop line processing", "src/link.rs apply_stoplines"), ("commitment to enter", "src/vehicle.rs entered / can_stop"), ("stop-line braking", "src/vehicle/acceleration.rs stop_at_line"), ("signal output", "src/simulation.rs update_lights")],
 [("control", "the traffic control at the start of a link", "src/link.rs Link"), ("entered", "how many links of the route are committed to", "src/vehicle.rs Vehicle")],
 ["Vehicle::link_id", "Vehicle::pos_front", "Vehicle::vel"],
 ("stop-line oracle along every history of control changes", NOTE))

prop("C04", "Stop and give-way signs are obeyed",
 "At a stop sign every vehicle, including each one in a queue, comes to a standstill within the sign's distance of the line before it crosses the line; at a give-way sign a vehicle stays slow enough to be able to stop at the line until it is within that distance, and from then on drives through without stopping only if its way is free. Until then it drives as before a closed link, and if its way is free it goes on at once. This also holds for a vehicle that is sent to the sign by a new destination or a lane change, or before which the sign is put up, as long as it can still stop comfortably. Once the conflicting traffic is gone it always drives on.",
 ["histories", "configurations", "inputs"], "every arrival pattern of vehicles on the controlled and the conflicting road, every sign distance and vehicle kind, every moment of a new destination or lane change, and every history of changes of the control",
 TESTS + "no test sets a control.",
 ["src/link.rs", "src/vehicle.rs"],
 [("queueing at a yield line", "src/link.rs apply_stoplines"), ("queue number", "src/vehicle.rs integrate"), ("change of the path", "src/vehicle.rs set_path")],
 [("queued", "the vehicle has queued at the line, with its number", "src/vehicle.rs Vehicle")],
 ["Vehicle::pos_front", "Vehicle::vel"],
 ("sign-obedience monitor along every arrival pattern and history of controls; comparison with a closed link", NOTE))

prop("C05", "Vehicles on converging or crossing links never collide",
 "If two links that cross or merge are declared as converging, the bodies of vehicles on them never overlap, whichever mix of free-flow, give-way, stop, priority or signal control their entrances have, whenever the vehicles arrive, and whichever of them halts inside the junction. Vehicles that leave a merge one behind the other also keep apart.",
 ["histories", "configurations", "inputs"], "every arrival pattern, control combination, crossing angle, vehicle mix and halt",
 TESTS + "no test has two vehicles, or a conflict.",
 ["src/conflict.rs", "src/link.rs", "src/simulation.rs"],
 [("conflict area detection", "src/conflict.rs ConflictPointLink::new"), ("conflict accelerations", "src/conflict.rs apply_accelerations"), ("gap acceptance", "src/link.rs can_enter / check_gap")],
 [("conflicts", "the conflict areas of a link", "src/link.rs Link")],
 ["Vehicle::position", "Vehicle::direction"],
 ("rectangle-overlap oracle at every step of every arrival pattern", NOTE))

prop("C06", "Right of way is respected",
 "A vehicle waiting at a give-way or stop line never forces a vehicle with right of way to brake hard or delays it noticeably compared with the same traffic without the waiting vehicle (by more than 2 s at a crossing or 5 s at a merge, a single waiting car by 0.5 s and 1.5 s; up to 5 s at a crossing if the last link before the line is shorter than 30 m). Between two signed approaches the one with the higher priority goes first, and with equal priority the vehicle that queued first, however many have queued before.",
 ["histories", "configurations", "inputs"], "every relative arrival time, priority pair, sign kind and vehicle mix",
 TESTS + "no test has two vehicles.",
 ["src/link.rs", "src/vehicle/acceleration.rs", "src/simulation.rs"],
 [("gap acceptance", "src/link.rs can_enter / check_gap"), ("reach time estimate", "src/vehicle/acceleration.rs min_reach_time"), ("queue order", "src/vehicle.rs integrate")],
 [("queued", "queue sequence number", "src/vehicle.rs Vehicle")],
 ["Vehicle::vel", "Vehicle::link_id"],
 ("two-run comparison with and without the yielding vehicle, and crossing-order oracle", NOTE))

prop("C07", "Following vehicles keep their distance",
 "A vehicle never comes closer than the minimum gap (about 2 m) to the vehicle ahead of it in its lane or on the links ahead on its route, however the vehicle ahead brakes, halts, turns off or restarts. It queues up close behind a standing vehicle rather than far away.",
 ["histories", "configurations", "inputs"], "every history of adding, freezing, releasing and removing vehicles and closing and opening links, on chains, curves and diverges, for every vehicle mix and time step",
 TESTS + "no test has two vehicles.",
 ["src/link.rs", "src/vehicle/acceleration.rs", "src/vehicle.rs"],
 [("following on the link and from preceding links", "src/link.rs apply_accelerations / process_vehicles"), ("following model", "src/vehicle/acceleration.rs idm")],
 [("vehicles", "vehicles of a link in order", "src/link.rs Link")],
 ["Vehicle::pos_rear", "Vehicle::pos_front", "Vehicle::link_id"],
 ("gap oracle over every pair at every step of every history", NOTE))

prop("C08", "Vehicle motion is physically consistent",
 "In every step a vehicle's velocity is never negative and changes by no more than its maximum acceleration or the maximum braking of 6 m/s2 allows; it advances along its route by the average of its velocities before and after the step times the time step, and never backwards. This holds across link boundaries, junctions, stops and restarts.",
 ["histories", "configurations", "schedules"], "every step of every explored history: following, stopping, signals, merging, lane changing, many time-step patterns",
 TESTS + "the one simulation test checks that a lone vehicle's position increases for 10 s.",
 ["src/vehicle.rs", "src/vehicle/acceleration.rs", "src/simulation.rs"],
 [("integration", "src/vehicle.rs integrate"), ("acceleration clamp", "src/vehicle/acceleration.rs acc"), ("link crossing", "src/vehicle.rs advance")],
 [("pos/vel", "longitudinal state", "src/vehicle.rs Vehicle")],
 ["Vehicle::vel", "Vehicle::pos_mid", "Vehicle::link_id"],
 ("kinematic identities checked at every step", NOTE))

prop("C09", "Speed limits are kept and used",
 "A vehicle never exceeds the speed limit of the link it is on, and has slowed to a lower limit by the time it enters the slower link (to within about 1 m/s, if it could brake for it comfortably within its lookahead of 5 s). On an open, empty road it speeds up to the limit of each link and holds it.",
 ["configurations", "histories", "inputs"], "every sequence of speed limits and link lengths within the bounds, every vehicle kind and time step, with halts and restarts in between",
 TESTS + "no test looks at a velocity.",
 ["src/link.rs", "src/vehicle/acceleration.rs"],
 [("current limit", "src/vehicle/acceleration.rs apply_current_speed_limit"), ("upcoming limit", "src/vehicle/acceleration.rs apply_speed_limit"), ("lookahead over links", "src/link.rs process_vehicles")],
 (), ["Vehicle::vel", "Vehicle::link_id"],
 ("speed envelope at every step", NOTE))

prop("C10", "Freezing a vehicle halts it until it is released",
 "A frozen vehicle brakes at the maximum rate to a standstill and does not move until it is released, whatever else happens; after release it drives on. The frozen flag that is read back is the one last set, and freezing, releasing or removing one vehicle never affects the flag of another.",
 ["histories", "schedules"], "every sequence of freeze, release, add, remove and reroute operations on several vehicles at every moment",
 TESTS + "no test freezes a vehicle.",
 ["src/simulation.rs", "src/vehicle/acceleration.rs"],
 [("frozen set", "src/simulation.rs set_vehicle_frozen / apply_frozen_vehicles"), ("emergency stop", "src/vehicle/acceleration.rs emergency_stop")],
 [("frozen_vehs", "set of frozen vehicles", "src/simulation.rs Simulation")],
 ["Simulation::get_vehicle_frozen", "Vehicle::vel", "Vehicle::pos_mid"],
 ("reference set plus braking profile along every operation sequence", NOTE))

prop("C11", "Vehicles are conserved and well-placed",
 "A vehicle is in the simulation from the moment it is added until it is removed by the caller or drives off the end of its destination link, and never otherwise. While there it appears exactly once when vehicles are listed, keeps its identity, size and destination, and is on an existing link at a position within that link's length. A removed vehicle has no further effect.",
 ["histories", "configurations"], "every sequence of add, remove, reroute, freeze and lane-change operations on small networks, every step",
 TESTS + "no test adds two vehicles, removes one or reaches the end of a link.",
 ["src/simulation.rs", "src/vehicle.rs", "src/link.rs"],
 [("advance and exit", "src/simulation.rs advance_vehicles"), ("insertion and removal", "src/link.rs insert_vehicle / remove_vehicle")],
 [("vehicles", "the vehicle set and the per-link vehicle lists", "src/simulation.rs, src/link.rs")],
 ["Simulation::iter_vehicles", "Simulation::get_vehicle", "Vehicle::link_id", "Vehicle::pos_mid"],
 ("reference set model stepped alongside every operation sequence", NOTE))

prop("C12", "Vehicles reach their destination by the quickest route",
 "A vehicle whose destination is reachable always gets there, using only declared connections and permitted lane changes, along a quickest route (of minimal total link cost, the time to drive each link at its limit in whole tenths of a second; a vehicle that is put into another lane by hand may keep to its former route, and may be stuck if that lane ends before the lane change), and leaves the network only at the end of its destination. If the destination is changed on the way, early enough to still act on it on the present link, it goes to the new one; without a reachable destination it stays in the network and does not leave.",
 ["configurations", "histories", "inputs"], "every small directed road graph with every choice of origin, destination, link lengths and limits, and every moment of rerouting",
 TESTS + "no test sets a destination.",
 ["src/vehicle/pathfinding.rs", "src/vehicle.rs", "src/simulation.rs"],
 [("shortest route", "src/vehicle/pathfinding.rs reroute"), ("path choice", "src/vehicle.rs choose_path / set_path"), ("exit permission", "src/vehicle/pathfinding.rs make_paths")],
 [("matrix/order", "lane desirability towards the destination", "src/vehicle/pathfinding.rs PathfindingModel"), ("route", "links ahead", "src/vehicle.rs Vehicle")],
 ["Vehicle::link_id", "Vehicle::destination", "Link::cost"],
 ("reference shortest paths on every graph of the bounded family", NOTE))

prop("C13", "Lane changes happen only where permitted, and where needed",
 "A vehicle changes lanes by itself only from a lane to an adjacent one that the group's permissions allow. If its destination can be reached only by changing lanes it makes the necessary changes and gets there, also if the destination is given on the way or while it stands, as long as there is room for the changes; if it can be reached without, it stays in its lane. It does not begin another change by itself before it has completed the last.",
 ["configurations", "inputs"], "every lane-change permission mask of groups of 2 to 4 lanes, every origin lane, exit connection pattern, destination and place where it is given",
 TESTS + "no test has two lanes.",
 ["src/group.rs", "src/vehicle/pathfinding.rs", "src/simulation.rs", "src/vehicle.rs"],
 [("permission mask", "src/group.rs lc_bit / lane_changes"), ("lane matrix", "src/vehicle/pathfinding.rs calc_lane_matrix"), ("lane change decision", "src/simulation.rs calculate_lane_changes")],
 [("lc_mask", "two permission bits per lane", "src/group.rs LinkGroup")],
 ["Vehicle::link_id", "Link::lane_changes"],
 ("every mask and topology of the bounded family, with reference reachability", NOTE))

prop("C14", "Lane changes are smooth and complete",
 "During a lane change the vehicle's position and heading in the world change continuously, without a jump when it begins, at link boundaries or when it ends. It moves steadily from the old lane's centre line to the new one's, stays between them (but for the small sideways motion with which it may begin in a bend or during another change), and is exactly on the new centre line after the given distance, even if that lies on a following link, it halts on the way or another lane change begins meanwhile. The same holds for the lane changes that a vehicle makes by itself.",
 ["histories", "configurations", "inputs"], "every start position, distance, speed, lane pair, road shape and sequence of up to three lane changes",
 TESTS + "no test changes lanes.",
 ["src/simulation.rs", "src/vehicle.rs", "src/link/curve.rs", "src/math/cubic.rs", "src/vehicle/dynamics.rs"],
 [("projection and offset curve", "src/simulation.rs do_lane_change"), ("carry-over to the next link", "src/vehicle.rs advance"), ("world pose", "src/vehicle.rs update_coords")],
 [("lane_change", "lateral offset function and its end", "src/vehicle.rs Vehicle")],
 ["Vehicle::position", "Vehicle::direction", "Vehicle::link_id"],
 ("continuity and completion oracle at every step of every manoeuvre", NOTE))

prop("C15", "Traffic in adjacent lanes is respected during lane changes",
 "While a vehicle moves from one lane to another with a clear gap, vehicles behind it in either lane, and it itself behind vehicles ahead in either lane, never touch each other's bodies (vehicles too long to stay within their lane while changing lanes in a bend excepted). Vehicles that simply drive in adjacent lanes pass each other without slowing down, and so does one that has changed lanes before it comes to a vehicle standing in the lane it left. A lane change has no effect on vehicles ahead of the one that makes it.",
 ["histories", "configurations", "inputs"], "every relative position, speed pattern, halt and lane-change distance in groups of two or three lanes",
 TESTS + "no test has two lanes.",
 ["src/link.rs", "src/group.rs", "src/vehicle.rs"],
 [("projection of neighbours", "src/group.rs LinkProjection"), ("following obstacles of other lanes", "src/link.rs follow_obstacles"), ("passing decision", "src/vehicle.rs can_pass")],
 [("projections", "lane-to-lane projections", "src/group.rs LinkGroup")],
 ["Vehicle::position", "Vehicle::direction", "Vehicle::vel"],
 ("rectangle-overlap oracle, and comparison with the lone run, over every manoeuvre", NOTE))

prop("C16", "Vehicles are drawn where the road is",
 "A vehicle that is not changing lanes is in the world exactly on its link's centre line, at the arc length given by its position, heading along the road; it does not turn while it stands; its rear line lies behind it at its width. The centre line of a link is the curve it was created from: same ends, same length, parameterised by distance; a point beside it is found again at its distance along and beside it, and the slope of a line through it is right.",
 ["inputs", "configurations"], "every link shape in the family of lines, quadratic and cubic curves, every position along it, while driving at every speed",
 TESTS + "one test checks that one curve is roughly parameterised by arc length.",
 ["src/link/curve.rs", "src/vehicle.rs", "src/math/curve/algorithms.rs", "src/vehicle/dynamics.rs"],
 [("arc length parameterisation", "src/link/curve.rs with_step"), ("world pose", "src/vehicle.rs update_coords"), ("heading", "src/vehicle/dynamics.rs calc_direction")],
 [("segments", "piecewise curve", "src/link/curve.rs LinkCurve")],
 ["Vehicle::position", "Vehicle::direction", "Vehicle::rear_coords", "Link::curve", "Link::length"],
 ("geometric oracle (independent numerical integration) over an enumerated family of curves", NOTE))

prop("C17", "Traffic keeps flowing",
 "Finite traffic in a network whose signals cycle and whose links are not permanently closed always clears: every vehicle eventually leaves, through crossings, merges, all-way stops, signals, diverges and queues, whatever the order of arrivals and after any temporary halt or closure. No call with valid arguments panics or fails to return.",
 ["histories", "configurations", "inputs"], "every arrival pattern and temporary disturbance within the bounds on each junction type",
 TESTS + "no test has more than one vehicle or runs until it leaves.",
 ["src/link.rs", "src/conflict.rs", "src/simulation.rs", "src/vehicle.rs"],
 [("gap acceptance and queue order", "src/link.rs can_enter / check_gap"), ("conflict accelerations", "src/conflict.rs apply_accelerations")],
 (), ["Simulation::iter_vehicles"],
 ("bounded liveness: every enumerated history is run until the network is empty", NOTE))

prop("C18", "Unrelated traffic and past traffic have no effect",
 "What a vehicle does depends only on the traffic and controls that can concern it: adding, moving or removing vehicles on roads that it can never meet, or that have already left or been removed (nor to remove those again), changes nothing about its motion. Removing a vehicle frees everything that waited for it.",
 ["histories", "configurations"], "every pair of runs that differ in unrelated, departed or removed vehicles, over the explored histories and networks",
 TESTS + "no test has more than one vehicle.",
 ["src/simulation.rs", "src/link.rs", "src/vehicle.rs"],
 [("per-link lists", "src/link.rs insert_vehicle / remove_vehicle"), ("activity flags", "src/simulation.rs apply_accelerations"), ("cached conflict index", "src/link.rs can_enter last_conflict")],
 [("active/last_conflict", "cached per-link state", "src/link.rs Link")],
 ["Vehicle::pos_mid", "Vehicle::vel", "Vehicle::position"],
 ("two-run comparison at every step", NOTE))

prop("C19", "The simulation is deterministic and only time-driven",
 "Building the same network and performing the same operations and steps gives the same vehicles, positions, velocities, poses and signal states, every time, in the same or in another simulation object running alongside. Reading from the simulation never changes its course, and a step of the frame counter happens exactly once per step.",
 ["histories", "schedules"], "every explored history, executed twice in separate and in interleaved simulation objects, with and without reads in between",
 TESTS + "no test runs a simulation twice.",
 ["src/simulation.rs", "src/link.rs", "src/vehicle.rs"],
 [("ordered containers", "src/simulation.rs Simulation"), ("no clocks or random numbers in step", "src/simulation.rs step")],
 (), ["Simulation::frame", "Simulation::iter_vehicles", "Simulation::iter_lights"],
 ("differential execution of every history against its own repetition", NOTE))

prop("C20", "Curve algorithms are geometrically correct",
 "Curves pass through the points their definitions prescribe and their derivatives are the derivatives of the sampled positions; splitting, reversing and raising a curve's degree preserve its shape. Projecting a point onto a curve that does not turn back finds the foot of the perpendicular, or a parameter beyond the nearer end; evenly spaced and subdivided point sequences lie on the curve, in order, from end to end, at the promised spacing (the last evenly spaced point may lie beyond the end); an intersection that is reported is one, and that of two segments or straight links is found.",
 ["inputs"], "every curve with control points on a grid and every parameter and query point on a grid",
 TESTS + "they check one quadratic curve at three parameters and evenly spaced points on straight lines.",
 ["src/math/curve.rs", "src/math/curve/algorithms.rs", "src/math/curve/bezier.rs", "src/math/util.rs"],
 [("curve evaluation", "src/math/curve/bezier.rs"), ("algorithms", "src/math/curve/algorithms.rs")],
 (), ["ParametricCurve2d", "project_point_onto_curve", "equidistant_points_along_curve", "subdivided_samples_along_curve", "intersect_curves", "CubicBezier2d::subdivide"],
 ("enumeration of grid-controlled curves and queries against closed forms", NOTE))

prop("C21", "Scalar helpers satisfy their definitions",
 "A fitted cubic takes the requested values and slopes at the two given points, its derivative is its derivative, and translating it shifts its graph; a lookup table returns the sample of the cell containing the argument, clamped at the ends; interval operations (overlap, containment, distance, clearance, interpolation and its inverse, shifting) agree with their set-theoretic meaning; vector helpers agree with theirs.",
 ["inputs"], "every combination of arguments on a grid, including boundaries and degenerate cases",
 TESTS + "they check the cubic fit on random values and one lookup table.",
 ["src/math/cubic.rs", "src/math/lut.rs", "src/util.rs", "src/math/util.rs"],
 [("cubic", "src/math/cubic.rs"), ("lookup table", "src/math/lut.rs"), ("interval", "src/util.rs")],
 (), ["CubicFn", "LookupTable", "Interval", "project_local", "rot90", "normalize_with_derivative"],
 ("enumeration of argument grids against definitions", NOTE))

prop("C22", "Network queries describe the network that was built",
 "The links before and after a link, the lanes it can change to, and the lanes reachable from it and from which it is reachable are exactly those declared by the connections and lane-change permissions; the listed routes are exactly the pairs of an entrance and an exit link between which a vehicle can travel, each once. Length, speed limit, cost and identity of a link are those of its definition.",
 ["configurations", "inputs"], "every small directed road graph, with and without a lane group with every permission mask",
 TESTS + "no test connects two links.",
 ["src/simulation.rs", "src/link.rs", "src/group.rs"],
 [("route enumeration", "src/simulation.rs all_routes"), ("reachable lanes", "src/group.rs reachable_lanes / reachable_from_lanes")],
 [("links_in/links_out/lane_changes", "adjacency", "src/link.rs Link")],
 ["Simulation::all_routes", "Link::links_in", "Link::links_out", "Link::lane_changes", "Link::reachable_lanes", "Link::reachable_from_lanes", "Link::cost"],
 ("reference graph computations on every graph of the bounded family", NOTE))

prop("C23", "Randomised driver speeds follow the requested distribution",
 "Randomising the desired speeds gives every vehicle an independent factor from a normal distribution with mean 1 and the requested deviation, limited to 0.75 to 1.25.",
 ["inputs"], "every deviation and every stream of random numbers",
 TESTS + "the random numbers come from the operating system.",
 ["src/simulation.rs"], [("sampling", "src/simulation.rs randomise_velocity_adjusts")], (), ["Vehicle::vel"],
 ("", ""), na="The factors are drawn from the thread's operating-system-seeded generator, which cannot be enumerated or controlled through the API; a statement about a distribution is statistical, not a property of single executions, so model checking does not decide it.")

prop("C24", "Individual desired speeds are bounded, lasting and replaceable",
 "After the desired speeds have been randomised, each vehicle then present drives, where nothing hinders it, at a constant factor of 0.75 to 1.25 of the speed limit, also across changes of the limit, lane changes and halts, until they are randomised again; with a huge deviation the factor is at one of these ends, with deviation 0 it is 1, also if it was not before, and then nothing changes for traffic that drives at the limit. Vehicles that arrive later drive at the limit. Vehicles with different factors still keep their distance, stop at closed links and drive on.",
 ["histories", "inputs", "configurations"], "every assignment of the extreme factors to three vehicles, every sequence of two later calls, every pair of kinds, one behind the other, and every set of instants of calls without effect",
 TESTS + "no test randomises speeds.",
 ["src/simulation.rs", "src/vehicle/acceleration.rs", "src/vehicle.rs"],
 [("sampling", "src/simulation.rs randomise_velocity_adjusts"), ("use of the factor", "src/vehicle/acceleration.rs apply_current_speed_limit")],
 [("vel_adj", "desired speed factor", "src/vehicle/acceleration.rs AccelerationModel")],
 ["Vehicle::vel", "Vehicle::pos_mid"],
 ("cruising speed against the permitted factors, with the environment's choice resolved in every way at the ends of the range", NOTE))

prop("C25", "Vehicles report their extent, standstill and earliest arrival correctly",
 "At every moment a vehicle's front and rear are half its length ahead of and behind its position, and it reports to have stopped exactly while it is slower than 0.1 m/s. The time it reports for reaching a position ahead, with a top speed that is not below its present one, is the time it would take with full acceleration up to that speed; for positions that it has reached it is 0. No vehicle gets anywhere sooner than it reported.",
 ["inputs", "histories"], "every speed, distance, top speed and acceleration of a grid, and every estimate made during every history",
 TESTS + "one test checks the time for a few distances.",
 ["src/vehicle.rs", "src/vehicle/acceleration.rs"],
 [("estimate", "src/vehicle/acceleration.rs min_reach_time"), ("read-outs", "src/vehicle.rs pos_front / pos_rear / has_stopped")],
 (), ["Vehicle::min_reach_time", "Vehicle::has_stopped", "Vehicle::pos_front", "Vehicle::pos_rear"],
 ("bisection on the closed form of the motion; arrival times in real histories", NOTE))

prop("C26", "A network behaves the same wherever and however it lies",
 "If a whole network is rotated, shifted or mirrored (with left and right lane changes exchanged), the same traffic does the same in it: at every moment each vehicle is at the rotated, shifted or mirrored place, with the same heading relative to it and the same speed, and the signals show the same. Only exact ties, which rounding decides, are exempt.",
 ["configurations", "histories"], "every history of operations, sequence of arrivals, lane mask and lane change of the bounded families, under every displacement of a list",
 TESTS + "no test has a road that is not straight along an axis.",
 ["src/link/curve.rs", "src/conflict.rs", "src/group.rs", "src/vehicle.rs", "src/simulation.rs"],
 [("curve sampling and sideways offsets", "src/link/curve.rs"), ("conflict areas", "src/conflict.rs ConflictPointLink::new"), ("lane order and projection", "src/group.rs"), ("lane change side", "src/simulation.rs do_lane_change")],
 [("position/direction", "place and heading of a vehicle", "src/vehicle.rs Vehicle")],
 ["Vehicle::position", "Vehicle::direction", "Vehicle::pos_mid", "Vehicle::vel", "TrafficLight::state"],
 ("differential execution of every history in a network and in its image", NOTE))

prop("C27", "The order in which a network is declared does not matter",
 "Two simulations that have the same links, connections, lane groups, convergences, controls and signals behave alike under the same traffic, whatever the order in which these were declared, and whichever link of a convergence was named first. Only the identifiers of links may differ, and what follows from exact ties (routes of equal cost, vehicles that queue at the same moment).",
 ["configurations", "histories"], "every order of the links of small networks and every order of a list for larger ones, with every history of operations and sequence of arrivals of the bounded families",
 TESTS + "no test builds a network of more than one link.",
 ["src/simulation.rs", "src/conflict.rs", "src/link.rs", "src/group.rs"],
 [("convergence set-up", "src/simulation.rs add_link_convergance"), ("order in which links are processed", "src/simulation.rs step"), ("adjacency", "src/link.rs Link")],
 [("links", "the links by identifier", "src/simulation.rs Simulation"), ("conflicts", "the conflict areas of a link", "src/link.rs Link")],
 ["Vehicle::position", "Vehicle::direction", "Vehicle::link_id", "Vehicle::vel", "TrafficLight::state"],
 ("differential execution of every history in differently declared networks", NOTE))

prop("C28", "The length of the time step hardly matters",
 "Vehicles that do not have to decide on gaps (alone or in a queue, on a free road, at signs, at links that close and open, halted and released, changing lanes) are at every moment within 3 m of where they would be with very small steps if no step is longer than 0.1 s, and within 12 m if no step is longer than 0.2 s. They change to the same lanes, at most 5 s sooner or later.",
 ["schedules", "histories", "configurations"], "every pattern of steps of a list, on every chain of links, with every mix of kinds, control and halt, and every lane mask and lane change of the bounded families",
 TESTS + "the one test with a vehicle uses one step length.",
 ["src/simulation.rs", "src/vehicle.rs", "src/vehicle/acceleration.rs", "src/link.rs"],
 [("when accelerations and paths are updated", "src/simulation.rs step"), ("integration", "src/vehicle.rs integrate")],
 (),
 ["Vehicle::pos_mid", "Vehicle::link_id", "Vehicle::position"],
 ("differential execution of every scenario with different steps", NOTE))

prop("C29", "Vehicles brake gently, and in time, for what they can see from afar",
 "A vehicle that comes up from afar, at no more than 15 m/s, to a standing vehicle, a closed link, a sign or a dead end brakes at no more than 2.2 times its comfortable deceleration, also where links or limits change shortly before, and so do those that follow it at a distance; nor does it need more than 6 s longer to get there than one that brakes as late as is comfortable. For a lower speed limit ahead the same bound on braking holds at every speed, and up to 15 m/s braking is not put off until, still 12 m before, more than 1.4 times the comfortable deceleration is needed.",
 ["inputs", "configurations"], "every distance of a grid, limit, kind of obstacle, chain of links, mix of kinds and pattern of steps of the bounded families",
 TESTS + "no test has a vehicle brake.",
 ["src/link.rs", "src/vehicle/acceleration.rs", "src/vehicle.rs"],
 [("lookahead", "src/link.rs process_vehicles"), ("car following and stopping at lines", "src/vehicle/acceleration.rs idm"), ("lower limits ahead", "src/vehicle/acceleration.rs apply_speed_limit")],
 [("acc", "the acceleration chosen", "src/vehicle/acceleration.rs AccelerationModel")],
 ["Vehicle::vel", "Vehicle::pos_mid"],
 ("speed differences over every step against the bound", NOTE))

prop("C30", "Nobody waits longer than necessary",
 "When a standing queue may go on (because a link opens, a signal turns green, or its first vehicle is released or removed), its first vehicle starts within 0.7 s of the earliest possible and each further one within 1.3 s after the one ahead, and every place in the queue costs less than 3 s. A vehicle that waits at a sign starts within 1.6 s once its way is free, and uses every gap in which it could drive the length of its last link and of the junction, with 2 s to spare. Traffic that stands before a closed line, or before a sign and farther away than the sign's distance, has no effect on a vehicle that drives through the junction.",
 ["inputs", "configurations"], "every cause, length and mix of a queue, chain of links, instant and pattern of steps; every pair of arrival times of a grid at crossings and merges",
 TESTS + "no test has a vehicle wait.",
 ["src/link.rs", "src/vehicle/acceleration.rs", "src/vehicle.rs", "src/conflict.rs"],
 [("car following", "src/vehicle/acceleration.rs idm"), ("gap acceptance", "src/link.rs check_gap"), ("who is considered at a convergence", "src/conflict.rs find_vehicles")],
 [("acc", "the acceleration chosen", "src/vehicle/acceleration.rs AccelerationModel")],
 ["Vehicle::vel", "Vehicle::pos_mid", "Vehicle::link_id"],
 ("times of starting and entering against bounds; second run without the standing traffic", NOTE))
