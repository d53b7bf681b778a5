add('C04', 'The vehicles arrive within a bounded time once faults stop',
    'Once pushes, failed solves, irregular updates and changes of target stop, every vehicle reaches its (reachable) target and the run ends by itself at that target, within twice the planning horizon, '
    'or within a few seconds more than the planned duration when the duration is free.',
    ['schedules', 'fault_sequences', 'inputs'],
    'all vehicles and limits in an empty room or with one obstacle beside the path, all sequences of faults and jittered updates before the bound starts counting',
    'Each example runs one undisturbed scenario; whether the loop still converges after a disturbance, a time-out or a late update is never exercised.',
    ['omgtools/execution/simulator.py', 'omgtools/execution/deployer.py', 'omgtools/problems/problem.py', 'omgtools/problems/point2point.py', 'omgtools/vehicles'],
    [('Simulator.run', 'omgtools/execution/simulator.py'), ('reset_init_guess', 'omgtools/problems/problem.py'), ('init_step', 'omgtools/problems/point2point.py'),
     ('set_parameters', 'omgtools/vehicles/*.py')],
    ['end of the run, recorded states'],
    tech='bounded liveness: after the last seeded fault a run must end, at its target, within a stated simulated time',
    note='Scenarios are kept where IPOPT finds its way (no head-on crossings, no solver time-outs for vehicles that cannot stop afterwards); others are not judged.')

add('C05', 'Arrival is reported exactly when every vehicle is there and at rest',
    'A run with fixed horizon ends exactly when every vehicle is within the stopping tolerance of its current target and at rest to the same tolerance, as recorded; a run of free duration does not end before its vehicle has '
    'followed the plan to the target. Meeting vehicles end exactly when their relative positions are as agreed.',
    ['schedules', 'histories', 'fault_sequences'],
    'all vehicle types, tolerances, targets moved while driving, pushes, disturbances, fleets of which some are there already',
    'In the examples the run ends after an undisturbed approach; a criterion that forgets one vehicle, the speed, or a moved target ends those runs just as well.',
    ['omgtools/vehicles', 'omgtools/problems/point2point.py', 'omgtools/problems/distributedproblem.py', 'omgtools/problems/rendezvous.py'],
    [('check_terminal_conditions', 'omgtools/vehicles/*.py'), ('stop_criterium', 'omgtools/problems/*.py')],
    ['result of each simulation step, recorded states and inputs'],
    tech='after every simulated step the reported arrival is compared with one computed from the recorded states, under seeded pushes, retargetings and solver failures',
    note='One recorded finding (free duration after a failed solve).')
na('C90', 'Spline algebra is exact',
   'Sums, products, derivatives, integrals, knot insertions and basis transformations of splines represent exactly the functions they claim to, so that any sequence of such operations agrees with evaluating the operands pointwise.',
   ['inputs'], 'all bases, coefficients and sequences of operations',
   'Tests evaluate a few splines at a few points.', ['omgtools/basics/spline.py', 'omgtools/basics/spline_extra.py'],
   [('BSpline operators', 'omgtools/basics/spline.py')],
   'Pure functions of their arguments: no time, scheduling, I/O, randomness or other party for a simulator to control (their use inside the closed loop is judged by C01, C02 and C17).')
na('C91', 'Reading a G-code or SVG file yields the described geometry',
   'For every well formed G-code or SVG file the parsed blocks or shapes are those the file describes, in the file\'s units and order.',
   ['inputs'], 'all well formed files', 'Tests read a handful of files.', ['omgtools/gui/gcode_reader.py', 'omgtools/gui/svg_reader.py'],
   [('GCodeReader', 'omgtools/gui/gcode_reader.py'), ('SVGReader', 'omgtools/gui/svg_reader.py')],
   'A parser: a pure function of one file read once by a single caller; deterministic simulation has no schedule, timing or fault to vary, and the GUI that calls it needs a display and a person.')

add('C07', 'Failed optimisations are announced, contained, and recovered from',
    'When an optimisation fails (time-out, iteration limit, breakdown, infeasible), at any update and any number of times in a row, the run goes on: nothing crashes, the failure is reported on the output, plans and records stay finite, '
    'and every update still moves the vehicles by its own duration. After a time-out the plan is restarted on the straight line from where the vehicle is to its target (a car stops). Once the failures stop, '
    'a vehicle able to stop and starting within its limits has a successful plan again within a few updates.',
    ['fault_sequences', 'schedules', 'inputs'],
    'all problem and vehicle types, all positions and lengths of bursts of failures, all iterates a failing solver may leave',
    'In the tests the solver nearly always succeeds; the code for a failed solve is not reached, or its consequences are not judged.',
    ['omgtools/problems/problem.py', 'omgtools/problems/admm.py', 'omgtools/problems/point2point.py', 'omgtools/vehicles'],
    [('Problem.solve, reset_init_guess', 'omgtools/problems/problem.py'), ('ADMM.update_x', 'omgtools/problems/admm.py'), ('get_init_spline_value', 'omgtools/vehicles/*.py')],
    ['plans after each update', 'recorded signals', 'output of the run'],
    tech='solver results are replaced by seeded failures (status and partial iterate) and the run is judged during and after each burst',
    note='What is driven on an unfinished plan is not held to the limits.')

add('C09', 'Obstacles move as described, however time is sliced',
    'An obstacle moves as the user described it (position, velocity, acceleration, rotation, timed changes, measured states, its own dynamics, bouncing off the walls of its room), and its motion is the same whatever the '
    'lengths of the steps in which simulated time goes by. Copies and problems made later show it where it is at that moment, and what the user passed in is left as it was.',
    ['schedules', 'inputs', 'histories'],
    'all obstacle shapes and motions in 2 and 3 dimensions, all timed changes (also several within one sample), all slicings of time into steps, copies taken at any time',
    'The examples move an obstacle or two in equal steps and look at neither the motion nor whether the planner saw the same; a change that is lost or doubled at a step boundary needs an irregular step to show.',
    ['omgtools/environment/environment.py', 'omgtools/environment/obstacle.py', 'omgtools/problems/distributedproblem.py'],
    [('Environment.simulate, copy', 'omgtools/environment/environment.py'), ('Obstacle.simulate, set_state', 'omgtools/environment/obstacle.py')],
    ['recorded obstacle signals', 'parameters and plan of the problem'],
    tech='the same obstacle is simulated in seeded irregular slices, with measurements and copies in between, and compared with its closed-form motion',
    note='Obstacles that hit each other are not judged.')

add('C17', 'Replanning starts from what is left of the plan in force',
    'When a plan is made anew, the search for it starts from the part of the plan in force that has not been driven yet, placed at the right time; in problems solved by several agents the same holds for '
    'the trajectories, copies and multipliers they exchange. This holds for any duration, any start time, and any number of knots passed between two updates.',
    ['schedules', 'histories', 'inputs'],
    'all problem and vehicle types, horizons that are not round numbers, nonzero start times, regular and late updates, interrupted solves before',
    'A wrong initial guess still converges in the small examples, only slower or to another side of an obstacle; nothing in the tests looks at the guess, and late updates never occur.',
    ['omgtools/problems/point2point.py', 'omgtools/problems/admm.py', 'omgtools/problems/dualdecomposition.py', 'omgtools/basics/optilayer.py', 'omgtools/basics/spline_extra.py'],
    [('init_step', 'omgtools/problems/point2point.py'), ('init_step', 'omgtools/problems/admm.py'), ('transform_primal_splines', 'omgtools/basics/optilayer.py')],
    ['initial guess handed to the solver', 'variables of the agents before and after each update'],
    tech='before every solve of a simulated run the initial guess is compared, sample by sample, with the rest of the previous plan',
    note='Late updates of problems with free duration are not judged (the guess is only shifted by the nominal period there).')

add('C10', 'Controllers do not influence each other, and a reset forgets the past',
    'Controllers that live in one process and are called in turn, at any point of each other\'s updates and failures, give exactly what each of them gives alone, even if they were built from the same option and limit '
    'dictionaries. After a reset, or in a new problem with the same vehicles, the plans are exactly those of a controller built afresh for that task, whatever was done, failed or was broken off before.',
    ['schedules', 'histories', 'fault_sequences'],
    'all pairs of problem and vehicle types, all interleavings at the points where one controller hands over, all histories of tasks, failures and aborted updates before a reset',
    'Every test uses one controller once. A default argument, class attribute or registry shared by accident shows only when a second one is alive, and a forgotten piece of state only on the second task.',
    ['omgtools/basics/optilayer.py', 'omgtools/problems', 'omgtools/vehicles', 'omgtools/execution/deployer.py', 'omgtools/environment/environment.py'],
    [('OptiFather, OptiChild.add_to_dict', 'omgtools/basics/optilayer.py'), ('reset, reinitialize', 'omgtools/problems/*.py'), ('reset', 'omgtools/execution/deployer.py'),
     ('set_default_options', 'omgtools/problems/*.py, omgtools/vehicles/*.py')],
    ['plans, parameters and records of each controller'],
    tech='controllers run as cooperative tasks under a seeded scheduler that switches between them at every seam; each is compared bitwise with the same controller run alone in a fresh process',
    note='Same process, one thread at a time: the package is not thread safe and does not claim to be.')

add('C11', 'Tasks done one after another join up',
    'In a session of runs, single steps, sleeps, plans driven to their end, changes of target and changes of problem, each task starts from rest where the vehicles really are and ends at its own target, '
    'every operation moves vehicles, obstacles and clock by the same and by the requested duration, vehicles asked to sleep stand still while the obstacles move on, and what is returned is what was recorded.',
    ['histories', 'schedules', 'inputs'],
    'all sequences of these operations on one or several vehicles, with one or two problems sharing vehicles and surroundings, regular and irregular update times',
    'Two examples run three tasks in one fixed order and look at nothing; single steps, sleeping in parts, or a second problem with moving obstacles are never exercised.',
    ['omgtools/execution/simulator.py', 'omgtools/execution/deployer.py', 'omgtools/problems/problem.py', 'omgtools/problems/distributedproblem.py', 'omgtools/problems/point2point.py'],
    [('run, step, run_once, sleep, set_problem', 'omgtools/execution/simulator.py'), ('sleep, reinitialize', 'omgtools/problems/problem.py'), ('initialize', 'omgtools/problems/distributedproblem.py')],
    ['return values of the operations', 'recorded signals of vehicles and obstacles', 'clock of the simulator'],
    tech='seeded sequences of operations on one simulated session, with invariants on clock, records, start and end of each operation',
    note='Tasks begin at rest: a reset plans from rest by design.')

add('C14', 'Exported C++ controllers do what the Python controller does',
    'The exported sources build as they come, for every problem the exporter accepts, every namespace and every directory; the resulting controller plans each update from the state, input, obstacles, bounds and guess '
    'that the measurements and instants it was given imply, also when it is late, was reset, failed before or switches obstacles, and its plans are those of the Python problem. '
    'What it hands out are samples of that plan, as many as were asked for; a failed update leaves the caller\'s trajectories alone, and exported agents exchange and update what the Python agents would.',
    ['inputs', 'schedules', 'fault_sequences', 'histories'],
    'all point-to-point, formation and rendezvous problems of the exportable vehicle with a fixed duration, prediction modes, sampling and update times, requested lengths, and sequences of timely, late, failed, recovered and restarted updates',
    'One test builds three exports and runs each for one fixed sequence of timely updates; the numbers are looked at by nobody, and no update is late, fails or is done over.',
    ['omgtools/export/export.py', 'omgtools/export/export_p2p.py', 'omgtools/export/export_admm.py', 'omgtools/export/point2point', 'omgtools/export/formation', 'omgtools/export/rendezvous', 'omgtools/export/vehicles'],
    [('Export._create_fillParameterDict, _create_updateBounds, _create_transformSplines', 'omgtools/export/export.py'), ('Point2Point::update', 'omgtools/export/point2point/Point2Point.cpp'),
     ('Vehicle::predict', 'omgtools/export/vehicles/Vehicle.cpp')],
    ['parameters, bounds and guess of the exported solver', 'trajectories and return value of update()', 'build result'],
    tech='the exported program runs as a node without clock or I/O of its own; a seeded schedule of measurements, late and impossible updates, recoveries and resets is fed to it and every step is compared with the Python problem',
    note='Exported agents talk over a simulated network that delivers in time. Compiled with the exported Makefile plus flags that turn out-of-range indices and missing return values into a crash.')

add('C12', 'Agents plan from their own data and messages, and come to an agreement',
    'In a distributed problem the result of an iteration depends only on each agent\'s own data and on the messages that reached it, not on the order in which the agents compute, and every iteration is '
    'the documented one for the knots that are still ahead, whatever was lost, delayed or failed before. Once faults stop the agents come to agree on their formation or meeting point, reach it, '
    'and plan as well together as one planner would for all of them.',
    ['schedules', 'fault_sequences', 'inputs', 'configurations'],
    'all numbers of agents and interconnections, orders of computation, lost, delayed and duplicated messages, disturbed agents, failed solves, horizons, update times and acceleration options',
    'The examples run agents in one order with perfect communication, and look at nothing but that they end; a wrong neighbour, a stale copy or an unshifted multiplier only slows agreement down.',
    ['omgtools/problems/admm.py', 'omgtools/problems/dualmethod.py', 'omgtools/problems/dualdecomposition.py', 'omgtools/problems/distributedproblem.py',
     'omgtools/problems/formation.py', 'omgtools/problems/rendezvous.py', 'omgtools/vehicles/fleet.py'],
    [('update_x, update_z, update_l, communicate, get_residuals, accelerate', 'omgtools/problems/admm.py'), ('dual decomposition updaters', 'omgtools/problems/dualdecomposition.py'),
     ('interpret_constraints, get_couplings', 'omgtools/problems/distributedproblem.py')],
    ['variables of each agent before and after each phase', 'recorded motion', 'plans'],
    tech='agents are nodes on a simulated network with seeded loss, delay, duplication and order of computation; every phase is compared with a per-agent reference model of the iteration, and agreement is demanded in bounded time after the last fault',
    note='What an agent optimises is judged through its parameters; its optimum is left to the solver. Agreement: 3 cm within 8 s of the last fault.')

add('C15', 'Without obstacles in the way the plan is the best plan there is',
    'Where nothing has to be avoided, a plan reported successful is as close to its target over the horizon, or as fast, as any motion of the same kind that keeps the limits, the room and, for a formation, the '
    'positions agreed on; and where such a motion exists one is found. This holds from any state, at any replanning instant, and after faults.',
    ['inputs', 'schedules', 'fault_sequences', 'configurations'],
    'all starts, targets, limits, rooms, horizons, replanning instants between and across knots, pushes, new targets and failed solves before, for vehicles with linear limits, fleets and central formations',
    'A planner that weighs time wrongly, forgets a vehicle, tightens a limit or optimises over the past still arrives; the tests compare no plan with what would have been possible.',
    ['omgtools/problems/point2point.py', 'omgtools/problems/formation_central.py', 'omgtools/vehicles/holonomic.py', 'omgtools/vehicles/holonomic1d.py', 'omgtools/vehicles/holonomic3d.py', 'omgtools/vehicles/vehicle.py'],
    [('FixedTPoint2point.construct, FreeTPoint2point.construct', 'omgtools/problems/point2point.py'), ('FormationPoint2pointCentral.construct', 'omgtools/problems/formation_central.py'),
     ('define_trajectory_constraints', 'omgtools/vehicles/holonomic*.py')],
    ['plans and solver status after every update'],
    tech='at every update of a seeded run with late updates, pushes, new targets and failed solves the plan is compared with the optimum of an independently written linear program',
    note='Best among curves of the vehicle\'s own spline basis; 0.2 % tolerance. Strict central formations that became over-determined by disturbances may give up.')

add('C13', 'A vehicle sent through a building gets there',
    'The way proposed through a building leads over free cells from start to goal and exists whenever the grid has one, and is at most 1.4 times as long as the shortest. '
    'While the vehicle follows it through one frame after the other, every plan reported successful is one smooth motion, keeps its limits and stays inside the building and clear of everything in it, whichever frame it was made for; '
    'moving obstacles that keep moving as they do are not hit, and an undisturbed vehicle arrives.',
    ['inputs', 'schedules', 'fault_sequences', 'configurations'],
    'all buildings, obstacles standing still or moving, stopping or starting, starts, goals, grids, kinds and numbers of frames, free and fixed durations, update instants, pushes and failed solves',
    'Two example buildings are driven through once; walls thinner than a cell, dead ends, goals next to a frame border, paths that come back, segments whose junction needs no knot or times that go to zero are not among them.',
    ['omgtools/problems/schedulerproblem.py', 'omgtools/problems/multiframeproblem.py', 'omgtools/problems/globalplanner.py', 'omgtools/environment/frame.py', 'omgtools/basics/spline_extra.py', 'omgtools/basics/geometry.py'],
    [('get_path, get_occupied_cells, is_accessible', 'omgtools/problems/globalplanner.py'), ('CorridorFrame, ShiftFrame, get_moving_obstacles', 'omgtools/environment/frame.py'),
     ('check_frames, create_frames, generate_problem', 'omgtools/problems/schedulerproblem.py'), ('concat_splines', 'omgtools/basics/spline_extra.py')],
    ['global paths', 'plans in force', 'recorded motion', 'obstacle signals'],
    tech='seeded buildings, obstacle motions, update instants, pushes and solver faults drive the real scheduler; the path is compared with a shortest-path search on an independently built grid, plans and motion with the whole building, arrival is demanded in bounded time',
    note='Grid paths with a vehicle larger than a cell, rotated walls and vehicles other than round or square holonomic ones are not generated. Arrival is not judged for runs with moving obstacles or after a failed solve drove the vehicle beyond its limits.')

add('C16', 'A tool machines the program it was given, all of it, within tolerance',
    'A program is read as the moves it describes, and all blocks are machined once, in order: the tool stays within the tolerance of the block it is on, at its depth, does not pass its ends by more than the tolerance allows, '
    'cuts no corner further than that, keeps its limits on speed, acceleration and jerk, and ends at rest at the end of the program. The recorded motion is one continuous motion in time, also where a block had to be solved again.',
    ['inputs', 'fault_sequences', 'configurations'],
    'all programs of lines and arcs in the notations the reader knows, tolerances, limits, numbers of blocks at once, splitting options, sampling times and failed solves of any block',
    'None of the tests machines a program; a shifted block number, a wrong turning direction, a retry from the wrong state or time shows only for some sequences of blocks.',
    ['omgtools/problems/gcodeschedulerproblem.py', 'omgtools/problems/gcodeproblem.py', 'omgtools/vehicles/tool.py', 'omgtools/gui/gcode_reader.py', 'omgtools/gui/gcode_block.py', 'omgtools/execution/deployer.py'],
    [('get_environment, check_segments, update_segments, get_init_guess', 'omgtools/problems/gcodeschedulerproblem.py'), ('update_segment, check_results', 'omgtools/execution/deployer.py'),
     ('define_trajectory_constraints, define_collision_constraints', 'omgtools/vehicles/tool.py'), ('read, create_blocks', 'omgtools/gui/gcode_reader.py')],
    ['blocks read', 'plans of every solve', 'recorded position, velocity, acceleration and jerk'],
    tech='seeded programs, limits and failed solves are run through the real reader, scheduler and deployer in one process; every plan and the recorded motion are compared with an independent geometric reading of the program',
    note='Flat programs, blocks longer than four tolerances, corners up to 150 degrees. Where a program crosses itself next to a corner it may be cut short there, arcs of more than half a circle may be used beyond their ends. A solver that gets stuck halfway and says so is not a violation.')

add('C18', 'Looking at a run does not change it, and figures show what was recorded',
    'A run records the same with or without figures open, made or animated while it goes on. Every figure shows, at the instant looked at - now, a sample, a time, a frame of a movie - '
    'the plan in force then with its knots and the prediction it was made from, the recorded history up to then and the room, obstacles, frames and vehicles where they were; nothing of it is missing, and nothing else is shown.',
    ['inputs', 'schedules', 'fault_sequences', 'configurations'],
    'all kinds of figures, opened before, during or after a run and looked back at any sample or time, for all vehicles and problems, with late updates, pushes, failed solves, disturbances and obstacles changing course',
    'The examples draw figures to nobody; a figure that is one plan behind, keeps a frame that is gone, cannot show the last sample or moves the state it draws goes unnoticed.',
    ['omgtools/execution/plotlayer.py', 'omgtools/vehicles/vehicle.py', 'omgtools/vehicles/fleet.py', 'omgtools/environment/environment.py', 'omgtools/environment/obstacle.py', 'omgtools/problems/problem.py',
     'omgtools/problems/schedulerproblem.py', 'omgtools/problems/admm.py', 'omgtools/execution/simulator.py'],
    [('plot, update_plots, plot_movie', 'omgtools/execution/plotlayer.py'), ('update_plot, _add_to_memory', 'omgtools/vehicles/vehicle.py'), ('init_plot, update_plot', 'omgtools/problems/problem.py, schedulerproblem.py, admm.py'),
     ('time2index', 'omgtools/execution/simulator.py')],
    ['data of lines and outlines in the figures', 'recorded signals', 'plans in force', 'recordings of the watched and the unwatched run'],
    tech='every seeded run with its faults is executed twice, unwatched and watched; the recordings are compared, and every artist of every figure is compared with the plans and the history the simulator saw',
    note='Colours, order and styles are not judged, nor 3-D bodies; movies are played on a canvas that draws nothing.')
