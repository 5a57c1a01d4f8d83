"""Writes /verif/properties.jsonl (the texts live here so that they can be edited readably)."""
import json, os

SIM = "gym_anm/simulator/simulator.py"
LF = "gym_anm/simulator/solve_load_flow.py"
DEV = "gym_anm/simulator/components/devices.py"
BR = "gym_anm/simulator/components/branch.py"
BUS = "gym_anm/simulator/components/bus.py"
CONST = "gym_anm/simulator/components/constants.py"
CHK = "gym_anm/simulator/check_network.py"
ENV = "gym_anm/envs/anm_env.py"
UTIL = "gym_anm/envs/utils.py"
ANM6 = "gym_anm/envs/anm6_env/anm6.py"
EASY = "gym_anm/envs/anm6_env/anm6_easy.py"
NET6 = "gym_anm/envs/anm6_env/network.py"
REND = "gym_anm/envs/anm6_env/rendering/py/rendering.py"
SRV = "gym_anm/envs/anm6_env/rendering/py/servers.py"
JS = "gym_anm/envs/anm6_env/rendering/js/"
SVGL = "gym_anm/envs/anm6_env/rendering/envs/anm6/svgLabels.js"
MPC = "gym_anm/agents/mpc.py"
MPCC = "gym_anm/agents/mpc_constant.py"
MPCP = "gym_anm/agents/mpc_perfect.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = list(observe)
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


TR = "Simulator.transition() results and Simulator.state"
STEP = "env.reset()/env.step() results, env.state, env.simulator.state"

prop("C01", "Every converged step satisfies the AC power-flow equations of the given grid",
     "Whenever a reset or transition reports convergence, the reported bus voltages satisfy the AC power-flow equations of the specified network (pi-model lines with charging, off-nominal taps and phase shifts, any topology and any bus numbering): at every bus, the sum of the reported injections of its devices equals the reported bus injection and the power flowing into the grid, up to the solver tolerance of 1e-5 p.u. The slack bus is held at its specified voltage magnitude (its VMAX) with zero angle, and the slack device supplies exactly what remains once all other devices, including others at the slack bus, are accounted for. The reported bus currents are the currents injected by those powers at those voltages.",
     ["inputs", "configurations", "histories"],
     "All networks of a catalogue (2-5 buses; radial and meshed; taps, shifts, charging; gapped and shuffled bus ids; slack anywhere; devices sharing buses) x all load/potential/set-point combinations of a lattice x all action sequences up to a depth.",
     "The tests solve a few radial networks with consecutive ids, slack bus 0 at 1 p.u. and one device per bus, and mostly compare with the library's own admittance matrix.",
     [SIM, LF, BR],
     [("Newton-Raphson load flow", LF + ":solve_pfe_newton_raphson,_f,_dfdx"), ("nodal admittance matrix", SIM + ":_build_admittance_matrix"), ("bus totals and slack balance", SIM + ":_get_bus_total_injections")],
     [("bus.v, bus.p, bus.q, bus.i", "solved nodal quantities", BUS), ("dev.p, dev.q", "applied injections", DEV)], [TR])

prop("C02", "The convergence verdict is truthful: solvable grids solve, others collapse",
     "If a transition is reported as converged, the reported voltages really solve the power-flow equations; if the injections are beyond the maximum power transfer of the grid, no transition is ever reported as converged and the environment terminates. Conversely, for grids without large phase shifts, whenever an operating point on the normal (high-voltage) branch exists with a clear margin to the limit, voltages below 1.4 p.u. and angles within 50 degrees of the slack bus, the step converges and reports that high-voltage operating point rather than a low-voltage solution or a collapse.",
     ["inputs", "configurations"],
     "All (P, Q, r, x, b, tap, slack voltage) combinations of a 2-bus lattice on both sides of the loadability limit (where the solution set is known in closed form), and all injections of a lattice on larger networks against an independent continuation solver.",
     "Tests only assert convergence on a few easy cases and non-convergence on one; nothing explores both sides of the solvability boundary.",
     [LF, SIM, ENV],
     [("convergence test", LF + ":solve_pfe_newton_raphson (stable)"), ("Newton iteration", LF + ":_newton_raphson_sparse"), ("terminal flag", ENV + ":step")],
     [("pfe_converged", "verdict of the last transition", SIM)], [TR, "terminated flag of env.step()"])

prop("C03", "Branch flows, directions and currents follow the pi-model of each line",
     "After every converged transition, the active power, reactive power and current reported for a branch are those entering it at its sending end according to the pi-model (series impedance, half the charging at each end, complex tap and phase shift at the sending side) and the reported voltages. The reported apparent power has the magnitude of the larger of the two ends' apparent powers and the sign of the sending-end active power; the reported current magnitude carries the sign of its real part and the current angle is that of the sending-end current.",
     ["inputs", "configurations"],
     "All branch parameter combinations of a lattice (r, x, b, tap, shift incl. zero, absent, extreme) x orientation x all injection combinations of a lattice in both flow directions.",
     "Tests check single hand-written branches without checking sign, both-ends maximum, taps and shifts together in solved states.",
     [BR, SIM], [("branch currents and flows", BR + ":compute_currents,compute_power_flows"), ("collected outputs", SIM + ":_gather_state")],
     [("branch.p_from, q_from, s_apparent_max, i_from", "solved branch quantities", BR)], [TR])

prop("C04", "Every quantity is consistent across all its units, in states and in bounds",
     "In every reached state and in every advertised bound, each electrical quantity reported in several units describes the same physical value: MW, MVAr, MVA and MWh are the per-unit value times the base power, kV is the per-unit value times the bus base voltage, kA is the per-unit value times base power over base voltage, and degrees correspond to radians. The same holds for the operating limits provided for rendering (bus voltage limits, branch ratings) and for the bounds of the action space.",
     ["configurations", "inputs", "histories"],
     "All quantities x all ids x all unit pairs, in every state reached by bounded action sequences on the network catalogue, and all bounds of all catalogue networks with base powers from 0.1 to 1000 MVA.",
     "Tests use one base power and compare a handful of dictionaries; a wrong conversion for one quantity or one bound is not reached.",
     [SIM, CONST], [("unit expansion of states", SIM + ":_gather_state"), ("unit expansion of bounds", SIM + ":get_state_space,get_rendering_specs,get_action_space")],
     [("state, state_bounds", "nested dict [quantity][unit][id] / [quantity][id][unit]", SIM)], ["Simulator.state", "Simulator.state_bounds", "Simulator.get_rendering_specs()", "Simulator.get_action_space()"])

prop("C05", "Applied injections never leave a device's physical operating region",
     "Whatever set-points, demands and potential generation are requested, the injections actually applied are physically possible for each device: loads draw a demand within their limits with reactive power at their fixed Q/P ratio; non-slack generators stay inside their P and Q limits, their sloped (P, Q) capability constraints and the currently available maximum generation; storage units stay inside their P and Q limits, the sloped constraints on both the injection and the withdrawal side, and what their state of charge, efficiency and the time step allow. Requests that are out of range, extreme or contradictory never produce undefined (NaN) injections.",
     ["inputs", "configurations", "histories"],
     "All device specifications of a lattice (including absent limits, degenerate and asymmetric regions) x all set-points of a lattice covering every face, vertex and far outside x potential generation x state of charge, plus bounded action histories.",
     "Tests sample a few points on one generator and one storage unit; the region is a polygon that changes with the state, so faces and corner cases combine.",
     [DEV, SIM], [("projection on the capability region", DEV + ":map_pq"), ("available generation clipping", DEV + ":Generator.p_pot, " + SIM + ":transition")],
     [("dev.p, dev.q, dev.p_pot, dev.soc", "device state", DEV)], [TR])

prop("C06", "A set-point is mapped to the closest feasible injection, feasible ones unchanged",
     "For every non-slack generator and storage unit, the applied (P, Q) injection is the point of the device's currently feasible region closest in Euclidean distance to the requested set-point; in particular a feasible request is applied unchanged (up to the optimizer's accuracy of about 1e-4 p.u.). A load's applied demand is the requested one clipped to its limits.",
     ["inputs", "configurations"],
     "All device specifications of a lattice x all set-points of a lattice around and inside the region x available generation x state of charge, each against an exact polygon projection.",
     "Tests check membership or a few corner projections; optimality against every face of every region shape is never checked.",
     [DEV], [("Euclidean projection QP", DEV + ":Generator.map_pq,StorageUnit.map_pq"), ("load clipping", DEV + ":Load.map_pq")],
     [("tau, rho", "slopes and offsets of the region", DEV)], [TR])

prop("C07", "Storage obeys energy conservation with efficiency losses and its SoC limits",
     "Over any history of steps, the state of charge of each storage unit changes by exactly the energy it absorbs times its efficiency when charging, or the energy it injects divided by its efficiency when discharging, over the time step; nothing else (other devices, reactive power, rejected requests) changes it. It always stays within its specified minimum and maximum, and no history lets a unit return more energy than it stored initially plus what it absorbed, net of losses.",
     ["histories", "inputs", "configurations"],
     "All action sequences up to a depth over an alphabet of charge/discharge/idle set-points, for 1-2 storage units with different efficiencies, limits, time steps and initial charges.",
     "Tests update the state of charge once or twice from hand-picked values; saturation, asymmetric efficiency and accumulation need sequences.",
     [DEV, SIM], [("SoC update", DEV + ":update_soc"), ("SoC-dependent P limits", DEV + ":StorageUnit.map_pq")],
     [("dev.soc", "state of charge", DEV)], [STEP])

prop("C08", "The reward equals the documented energy-loss and constraint-violation costs",
     "After every non-terminal step, the energy loss is the time step times the sum (in p.u.) of all generator, slack and load injections plus curtailed renewable generation (available minus produced, when positive); the penalty is lambda times the time step times the sum of all bus voltage limit violations and branch rating violations (p.u.). The environment clips the absolute value of the energy loss, keeping its sign, and the penalty to the configured maxima (no clipping when unset), and the reward is minus their sum.",
     ["histories", "inputs", "configurations"],
     "All states reached by bounded action sequences on the catalogue, with lambda, time step and clipping (none, one-sided, zero, tight) enumerated.",
     "Tests compute a few rewards with one violated limit at a time; combinations of violations, signs and clipping are not reached.",
     [SIM, ENV], [("reward terms", SIM + ":_compute_reward"), ("clipping", ENV + ":step")],
     [("e_loss, penalty", "cost terms of the last step", ENV)], [TR, "env.step() reward, env.e_loss, env.penalty"])

prop("C09", "Reported states and observations stay inside the advertised bounds",
     "The advertised state bounds are those of the network specification: device and bus injection limits (a bus's being the sum of its devices'), state-of-charge limits, available-generation limits, the fixed slack voltage and zero slack angle, angles within half a turn, and unbounded otherwise. In every reachable converged state each reported quantity lies within them (up to solver accuracy; the slack device's own injection limits are not enforced), and every observation lies within the observation space built from those same bounds and the auxiliary-variable bounds.",
     ["histories", "configurations", "inputs"],
     "All states reached by bounded action sequences on the catalogue and every observation quantity and unit in it.",
     "Tests compare the bounds of one network; that they hold in every reachable state is a universally quantified invariant.",
     [SIM, ENV], [("state bounds", SIM + ":get_state_space,_compute_bus_bounds"), ("observation space", ENV + ":observation_bounds,observation")],
     [("state_bounds", "advertised ranges", SIM), ("observation_space", "gym Box", ENV)], ["Simulator.state_bounds vs Simulator.state", "env.observation_space vs observations"])

prop("C10", "A collapsed network is an absorbing terminal state until the next reset",
     "When a step makes the network collapse, it returns terminated with an all-zero observation and state and the reward -c2/(1-gamma), where c2 is the penalty clipping value. Every later valid action returns the zero observation, reward 0 and terminated again without sampling anything or changing the state, for any number of steps and whatever the action, until a reset starts a fresh, non-terminated episode whose behaviour does not depend on the collapse. Non-collapsing steps never report termination.",
     ["histories", "configurations"],
     "All sequences up to a depth over {benign action, collapsing action, invalid action, reset} for several discount factors and clippings.",
     "Tests check one collapse; the absorbing property and the recovery quantify over histories.",
     [ENV], [("terminal handling", ENV + ":step,reset,_terminal_state")], [("terminated", "episode flag", ENV)], [STEP])

prop("C11", "Reset reproduces the initial state and erases all history",
     "Resetting to an initial state makes the environment report exactly that state for everything that is physically possible (load demands, generator and storage injections, states of charge, available generation, auxiliary variables), projecting only what is not, with the slack completing the balance. After a reset, the subsequent behaviour is independent of anything that happened before it (earlier episodes, actions, collapses, failed calls). The state vector is sufficient: an environment reset to a state reached in mid-episode continues exactly like the original one.",
     ["histories", "inputs", "configurations"],
     "All initial states of a lattice and all pairs (history up to a depth, continuation up to a depth): continuing after a history versus starting afresh from the reached state.",
     "Tests reset once from fresh objects; residual state carried across resets or hidden state outside the state vector only shows over histories.",
     [SIM, ENV, DEV], [("reset to a state vector", SIM + ":reset"), ("episode reset", ENV + ":reset")],
     [("state", "state vector", ENV)], [STEP])

prop("C12", "Seeded runs are reproducible and environments do not influence each other",
     "Two environments of the same kind created or reset with the same seed and given the same actions produce identical observations, rewards and dates, whatever the global random state and whatever was done before; consecutive resets without a seed continue the same reproducible random stream. Any number of environments, simulators and agents used in any interleaving in one process each behave exactly as if used alone.",
     ["schedules", "histories"],
     "All interleavings of the operation sequences of two (or three) instances up to a length, and all reset/step sequences with seeds from a small set.",
     "Tests use one environment at a time; shared mutable state between instances shows only under interleaving.",
     [ENV, ANM6, EASY, SIM], [("seeding", ENV + ":__init__,reset"), ("random draws", EASY + ":init_state, gym_anm/envs/anm6_env/utils.py:random_date")],
     [("np_random", "random generator of the environment", ENV)], [STEP, "env.date"])

prop("C13", "Physical results do not depend on the choice of base power",
     "Expressing the same physical network with a different base power (impedances and susceptances rescaled accordingly, limits and ratings given in MW, MVAr, MVA, MWh unchanged) leaves every reported physical quantity (MW, MVAr, MVA, MWh, p.u. voltages, angles), every MW/MVAr bound and the termination of every history unchanged, and scales energy loss and branch penalties by the ratio of the bases.",
     ["configurations", "histories"],
     "All catalogue networks x several pairs of base powers x all action sequences up to a depth.",
     "A metamorphic relation between two networks; tests look at one base at a time.",
     [SIM, DEV, BR], [("conversion of specifications to p.u.", DEV + ":_check_type_specific_specs, " + BR + ":_check_input_specs"), ("conversion of inputs and outputs", SIM + ":transition,_gather_state")],
     [], [TR, "bounds"])

prop("C14", "Results do not depend on row order or on the numbering of buses and devices",
     "Permuting the rows of the bus, device or branch tables does not change any quantity reported for a given bus, device or branch. Renaming bus or device ids (to any distinct ids, with gaps, and with the slack anywhere) only renames the results, up to the order in which vectors list devices, which is always increasing id.",
     ["configurations", "inputs"],
     "All permutations of the rows of small networks and a set of id renamings (shifted, gapped, reversed, slack first/middle/last) x all inputs of a lattice.",
     "Tests only use ordered, consecutive ids with the slack first; order dependence needs permuted inputs.",
     [SIM, LF, ENV], [("sorted containers", SIM + ":_load_case"), ("index mapping in the solver", LF + ":solve_pfe_newton_raphson"), ("vector layouts", ENV + ":step,_extract_state_variables")],
     [("buses, devices, branches", "ordered maps", SIM)], [TR, STEP])

prop("C15", "Each action entry drives exactly its device, and invalid actions are refused",
     "The action space lists, in increasing device id within each block, the P limits then Q limits of the non-slack generators followed by the P limits then Q limits of the storage units, in MW and MVAr as specified, and each action entry is the set-point of exactly that device and quantity. An action outside the space (wrong size, out of bounds, NaN) is refused with an error that leaves the environment, its random stream and its future behaviour exactly as they were.",
     ["inputs", "histories", "configurations"],
     "All single-entry and pairwise action perturbations on networks with several generators and storage units with non-monotone id order, and all positions of invalid actions in histories up to a depth.",
     "Tests use one generator and one storage unit, for which many permutations of the action vector coincide.",
     [ENV, SIM], [("action vector layout", ENV + ":step,_build_action_space"), ("action bounds", SIM + ":get_action_space")],
     [("action_space", "gym Box", ENV)], [STEP, "env.action_space"])

prop("C16", "Sampled demand, generation and auxiliary variables reach the right places",
     "At every non-terminal step the environment asks exactly once for the next internal variables, passing the current state vector; the returned loads (clipped to their limits), maximum generations (clipped to the generators' limits) and auxiliary variables, each in increasing id, appear at their places in the new state and in the observations, and the state vector is [device P, device Q, storage charge, available generation, auxiliaries] in MW, MVAr, MWh. Vectors of the wrong size, from either the initial-state or the next-variables function, are refused with the documented errors: a refused next-variables vector leaves the episode unchanged, and after a refused initial state the environment can be reset again.",
     ["histories", "configurations", "inputs"],
     "All histories up to a depth over an alphabet of internal-variable vectors (distinct values per slot, out-of-range values, wrong sizes), with K from 0 to 3 and several device layouts.",
     "Tests use K <= 1 and at most one or two loads in id order, so that misplacements coincide.",
     [ENV], [("internal variables", ENV + ":step"), ("state vector", ENV + ":_construct_state,_extract_state_variables")],
     [("state", "state vector", ENV)], [STEP])

prop("C17", "Observations contain exactly the requested quantities, order and units",
     "For every valid observation specification - full state, a list of (quantity, ids or 'all', unit or default unit), or a function of the state - each observation holds exactly the requested quantities for the requested ids in the requested order and units, equal to the current physical values clipped to the advertised bounds. The observation space has matching size and bounds, in reset and in step, and the default unit is the documented one for each quantity.",
     ["configurations", "histories"],
     "All quantities x all units and the default x 'all' and id sub-lists (permuted, single) as single entries, and all ordered pairs of a set of entries, checked on every state of bounded histories; several functions.",
     "Tests check one list; the product of quantities, units and orders is never enumerated.",
     [ENV, UTIL, CONST], [("observation construction", ENV + ":_build_observation_space,_expand_all_ids,_extract_state_variables,observation"), ("units", CONST + ":STATE_VARIABLES")],
     [("obs_values", "expanded specification", ENV)], ["observations, env.observation_space"])

prop("C18", "Exactly the well-formed network descriptions are accepted",
     "A network description is accepted exactly when its base power is positive; bus, device ids are unique; there is exactly one slack bus and one slack device, at that bus; buses have valid type, positive base voltage and ordered non-negative voltage limits (those of the slack bus, whose voltage is fixed to its maximum, need no minimum); branches join existing buses without parallels, with non-negative parameters, non-zero impedance, positive tap and shift in [0, 360]; and devices have an existing bus, a known type and consistent limits for that type (ordered P and Q ranges, capability points inside them, correct signs, storage charge range non-negative and ordered, efficiency in [0, 1], loads with a Q/P ratio and no injection). Anything else is refused at construction with the error class of the offending part, and absent optional limits get their documented defaults.",
     ["inputs", "configurations"],
     "Every field of every row of a valid network replaced by every value of a per-field alphabet (absent, negative, zero, boundary, just beyond, crossed, unknown), alone and in all pairs within a row, against an independent validator.",
     "Tests cover a list of single mutations per class; pairs, boundaries and acceptance of valid-but-unusual descriptions are not covered.",
     [CHK, DEV, BR, BUS, SIM], [("global checks", CHK + ":check_network_specs"), ("per-component checks", DEV + ":_check_type_specific_specs, " + BR + ":_check_input_specs, " + BUS + ":_check_input_specs")],
     [], ["Simulator(network, ...) outcome"])

prop("C19", "Exactly the valid environment arguments are accepted",
     "An environment is created exactly when the number of auxiliary variables and lambda are non-negative, the time step is positive, the discount factor is in [0, 1], the auxiliary bounds (if given) match the number of auxiliary variables, and the observation specification is the full state, a function, or a list of well-formed entries naming supported quantities, existing ids and supported units. Anything else is refused with the documented error class before the environment can be used.",
     ["inputs", "configurations"],
     "All combinations of argument values from boundary alphabets, and all observation entries from an alphabet of quantities x id specifications x units including malformed ones, in every list position.",
     "Tests do not cover the argument checks systematically.",
     [UTIL, ENV], [("argument checks", UTIL + ":check_env_args,_check_observation_vars")], [], ["ANMEnv construction outcome"])

prop("C20", "MPC forecasts are aligned with the future the environment will realize",
     "At any time of day and for any planning horizon, the perfect-forecast agent predicts, for each load and non-slack generator in increasing id, exactly the per-unit demand and maximum generation that the daily task will realize at each of the next steps, wrapping around midnight as often as needed. The constant-forecast agent predicts the currently observed demand and available generation for every step of the horizon. (The forecast generation may be given before or after limiting it to the device's capacity.) Forecasting has no side effect on the environment.",
     ["inputs", "histories", "configurations"],
     "All 96 times of day x all horizons up to several days, and constant forecasts in all states of bounded histories on several networks.",
     "Tests never check forecasts; off-by-one and wrap-around errors show at specific times and horizons only.",
     [MPCP, MPCC, EASY], [("perfect forecast", MPCP + ":forecast"), ("constant forecast", MPCC + ":forecast")], [], ["agent.forecast(env)", "future env states"])

prop("C21", "MPC actions solve the multi-stage DC optimal power flow they stand for",
     "In every state, the MPC agent returns an action inside the action space, with zero reactive set-points, whose active set-points are part of an optimal plan of the N-stage DC optimal power flow: line flows from susceptances and bus angles with the slack bus as reference, forecast demand met, generators within limits and forecast, storage within power limits and charge limits with efficiency losses along the horizon, minimizing discounted non-renewable generation plus lambda times line overloads beyond the safety margin. Its decision depends only on the current state, forecasts and its own configuration, and leaves the environment unchanged.",
     ["inputs", "configurations", "histories"],
     "All states of bounded histories and a lattice of charges, demands and limits on several networks (meshed, gapped ids, with/without each device kind) x horizons 1-4 x margins and discounts; optimality certified against an independently built linear program.",
     "The existing test checks constraint satisfaction of one agent on one network; optimality, coupling between stages and purity are not checked.",
     [MPC], [("optimization problem", MPC + ":_single_step_optimization_problem,_create_optimization_problem"), ("action extraction", MPC + ":_solve,act")],
     [("dc_opf", "cached optimization problem", MPC)], ["agent.act(env)"])

prop("C22", "The ANM6Easy task follows its fixed 24-hour cycle exactly",
     "In the ANM6Easy task, on the published six-bus network, every episode starts at one of the 96 quarter-hours with demands and available generation equal to the published time series at that time (gross of device limits), storage charge and generator injections within limits; each step advances the time of day by exactly one quarter-hour modulo 24 hours and exposes the corresponding demands and maximum generations, so that the internal variables at any step depend only on the time of day. The task uses time step 0.25 h, discount 0.995, lambda 100 and cost clipping (1, 100), and observations are the full state.",
     ["histories", "inputs"],
     "All 96 starting times x steps through at least one full day (the whole 96-state time automaton), with several actions, and seeds covering every starting time.",
     "Tests sample a few steps; the wrap-around and every table entry are not visited.",
     [EASY, NET6], [("time series", EASY + ":_get_load_time_series,_get_gen_time_series"), ("clock", EASY + ":next_vars,init_state")], [("aux", "time of day 0..95", EASY)], [STEP])

prop("C23", "Callers' data and returned arrays are never shared with the environment",
     "Constructing, resetting and stepping environments, and acting with agents, never modify the caller's network description, bounds, action arrays, initial-state or next-variable vectors. Observations and states already returned keep their values when the environment moves on, and modifying returned observations, passed actions or the network description afterwards never changes the environment's behaviour.",
     ["histories", "inputs"],
     "All operation sequences up to a depth with a mutation of each caller-visible array inserted at each point, compared with the unmutated run.",
     "Tests never mutate inputs or keep old observations around.",
     [ENV, SIM], [("state and observation copies", ENV + ":step,observation,reset"), ("specification parsing", SIM + ":_load_case")], [], [STEP])

prop("C24", "Every viewer gets the initialization first, then every later update, in order",
     "Whatever the order in which viewers and the environment's connections join, send and leave, each connected viewer receives the rendering initialization message before any update sent after that initialization, receives it even if it joined before the initialization was sent, and then receives every update sent while it is connected, exactly once, unmodified and in order. Viewers that left receive nothing more, and their leaving never disturbs the others.",
     ["schedules", "histories"],
     "All interleavings of the environment's connect/init/update/disconnect sequence with join and leave (graceful or abrupt) events of up to three viewers, up to a depth, and all thread schedules of concurrent connections up to a preemption bound.",
     "There are no tests of the rendering servers; the guarantees are about all interleavings of connections.",
     [SRV, REND], [("WebSocket server handlers", SRV + ":WsServer.new_client,msg_received,client_left"), ("message emission", REND + ":start,update")],
     [("clients, init_message, init_client", "server state", SRV)], ["messages sent to each client"])

prop("C25", "The displayed date and year count advance exactly with simulated time",
     "After any sequence of resets and steps, the environment's date is the initial date plus the number of steps since the reset times the time-step length, and the year count is the number of full 365-day years elapsed since that initial date. The initial date is the one requested in the reset options, or a reproducible random day of the reference year; in the daily task the date's time of day corresponds to the episode's time of day, and each reset restarts the count.",
     ["histories", "configurations"],
     "All sequences up to a depth over {reset with date, reset without date, step} for several time-step lengths (minutes to thousands of hours, so that years roll over), and all starting times of day.",
     "Tests never look at dates; year roll-over needs long histories.",
     [ANM6, EASY], [("calendar", ANM6 + ":step,reset,reset_date"), ("random date", "gym_anm/envs/anm6_env/utils.py:random_date")], [("date, date_init, year_count", "calendar state", ANM6)], ["env.date, env.year_count"])

prop("C26", "The viewer displays exactly the last state received",
     "After an initialization and any sequence of updates, the web viewer shows for the last update: each device's P and Q values, bars scaled to its limits and coloured by sign, arrow direction and curtailed potential; each line's loading percentage, direction, and a warning cross exactly when its rating is exceeded; each storage level; each bus voltage with a warning cross exactly when outside its limits; date, time, year count, costs and the collapse indicator. Nothing from earlier updates remains visible.",
     ["inputs", "histories"],
     "All sequences of two updates over an alphabet of states in which every device, line, bus, storage unit and cost takes every class of values (signs, zero, at/over/under each limit), on the real viewer scripts.",
     "There are no tests of the viewer scripts.",
     [JS + "devices.js", JS + "graph.js", JS + "init.js", JS + "reward.js", JS + "text.js", JS + "dateTime.js", SVGL], [("message dispatch", JS + "init.js:onmessage"), ("element updates", JS + "devices.js")], [], ["attributes, text and style of the SVG elements"])

prop("C27", "Reset keeps trying initial states and fails cleanly when none is feasible",
     "A reset draws initial states until one has a power-flow solution, up to one hundred, and starts the episode in exactly that one, discarding the rejected ones without trace. If all one hundred collapse it raises the documented initialization error, and the environment can still be reset successfully afterwards.",
     ["fault_sequences", "histories"],
     "All positions (1st to 100th, and none) of the first feasible initial state, combined with preceding episodes and following steps.",
     "Tests never exercise rejected initial states.",
     [ENV, SIM], [("initial-state search", ENV + ":reset")], [], ["env.reset() outcome, number of draws, resulting state"])

prop("C28", "Environments honour the Gymnasium interface in every reachable situation",
     "In every reachable situation, reset returns an (observation, info dict) pair and step an (observation, float reward, bool terminated, False truncated, info dict) tuple whose observation is a finite-size float array contained in the declared observation space (except the all-zero observation that ends a collapsed episode), with spaces that never change their size; the reward is never NaN. The registered ANM6Easy-v0 environment behaves identically to the directly constructed one, step counts advance by one per non-terminal step and restart at each reset, and using unsupported operations (abstract functions, rendering modes, rendering of custom environments) fails with a not-implemented error.",
     ["histories", "configurations"],
     "All sequences up to a depth over {reset, reset with seed, step with each action of an alphabet, invalid action} on all catalogue environments, including collapse.",
     "Tests check shapes in a few steps of one environment.",
     [ENV, "gym_anm/__init__.py", EASY], [("interface", ENV + ":reset,step"), ("registration", "gym_anm/__init__.py")], [("timestep", "step counter", ENV)], [STEP])

prop("C29", "Rendering shows the current state at the requested cadence, with no side effect",
     "The first render call starts the viewer, sends the network's specifications and the current state; after that, rendering with skip n sends the state exactly at every (n+1)-th call, with the current date, year count, injections, flows, charges, available generation, voltages, costs and collapse flag in their order, as valid JSON (quantities that are not finite after a collapse are sent as numbers). Rendering continues across resets, closing stops the servers and allows rendering to start anew, and rendering at any point never changes the simulated trajectory.",
     ["histories", "configurations"],
     "All sequences up to a depth over {render, step, reset, close} with each skip value of a set, with the servers and sockets replaced by recorders.",
     "There are no tests of rendering.",
     [ANM6, REND], [("cadence", ANM6 + ":render"), ("specifications", ANM6 + ":_init_render"), ("messages", REND + ":start,update,close")], [("skipped_frames, render_mode, is_rendering", "rendering state", ANM6)], ["messages handed to the WebSocket connection, server process lifecycle"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
