"""Writes properties.jsonl and MANIFEST.json from one table (run after editing:
python3 meta.py).  Kept so that the two stay in step."""
import json
import os

SIM = 'deterministic simulation with fault injection: seeded search over simulated schedules and fault sequences, '


def P(id, title, statement, over, otext, why, files, mech, observe=(), tech='', note='', hook=None, claimed=True, reason=None):
    return dict(id=id, title=title, statement=statement, over=over, otext=otext, why=why, files=files, mech=mech,
                observe=list(observe), tech=tech, note=note, hook=hook, claimed=claimed, reason=reason)


PROPS = []
NA = []


def add(*a, **k):
    PROPS.append(P(*a, **k))


add('C01', 'A new plan starts where the vehicle will be when it takes effect',
    'Whenever the planner replans successfully, the new motion plan starts (to solver accuracy) at the state the vehicle will have at the '
    'moment the plan takes effect, predicted with the vehicle\'s own model from the latest measured state and the plan still in force, and with '
    'the input in force then where the plan keeps inputs continuous. This holds for any replanning period, for updates that arrive late '
    'or early by any number of samples, and for any offset of the measured state from the plan.',
    ['schedules', 'fault_sequences', 'inputs'],
    'all vehicle models and problem types, all update periods and sample times, all sequences of late/early updates, all pushes or measured-state offsets',
    'The tests run each example once with a fixed period and no late update, and judge only that nothing crashes; a plan that starts at the wrong '
    'instant or state by one update still arrives at the target.',
    ['omgtools/execution/deployer.py', 'omgtools/problems/problem.py', 'omgtools/problems/distributedproblem.py', 'omgtools/vehicles/vehicle.py',
     'omgtools/problems/point2point.py'],
    [('Deployer.update (delay, prediction)', 'omgtools/execution/deployer.py'), ('Vehicle.predict', 'omgtools/vehicles/vehicle.py'),
     ('set_parameters / set_initial_conditions', 'omgtools/vehicles/*.py')],
    ['the vehicle\'s planned trajectories after each update', 'recorded signals'],
    tech='each new plan is compared with an independent RK4 prediction while update instants, lateness, pushes and measurement offsets are drawn by a seeded scheduler',
    note='Explored worlds and schedules are samples; update instants are whole samples.')

add('C02', 'A plan the solver calls successful obeys every limit and constraint',
    'Every plan whose optimisation is reported successful keeps the vehicle\'s velocities, accelerations and actuator inputs within the limits the user set, '
    'keeps the vehicle inside the room, and keeps it clear of every obstacle where that obstacle will be if it goes on as last observed (and of the other vehicles when '
    'inter-vehicle avoidance is on). The plan comes to rest at its end, at the target when the duration is free or a hard terminal constraint is asked for.',
    ['inputs', 'schedules', 'fault_sequences', 'configurations'],
    'all vehicle types and shapes, limits, rooms, static and moving obstacles, fixed and free duration, all replanning schedules, pushes, retargetings and earlier solver failures',
    'The examples never check a plan against limits or obstacles; a constraint that is dropped, shifted in time or mis-scaled for one vehicle type or for '
    'replanning between knots leaves the tests green.',
    ['omgtools/vehicles', 'omgtools/problems/point2point.py', 'omgtools/environment/environment.py', 'omgtools/environment/obstacle.py', 'omgtools/basics/optilayer.py'],
    [('define_trajectory_constraints / define_collision_constraints', 'omgtools/vehicles/*.py'), ('Obstacle splines', 'omgtools/environment/obstacle.py'),
     ('shifting of the horizon', 'omgtools/problems/point2point.py')],
    ['planned trajectories', 'solver return status'],
    tech='every successful plan of a simulated run is judged against independent dynamics limits and exact polygon/disc distances',
    note='Judged at samples with tolerances for the solver; IPOPT itself is real.')

add('C03', 'What is driven is collision free and within limits',
    'Between two replans an undisturbed vehicle following a successful plan stays, at every recorded instant, inside the room, within its limits, and outside every '
    'obstacle that kept to the motion it showed at the replan. Vehicles that plan together with inter-vehicle avoidance never overlap.',
    ['schedules', 'inputs', 'fault_sequences'],
    'all worlds with static and moving obstacles that may change their motion, all update schedules including late updates, interrupted solves in between',
    'Tests record no distances; collisions appear only when obstacle time base, plan time base and driven trajectory disagree, which needs late updates or moving obstacles at particular times.',
    ['omgtools/execution/simulator.py', 'omgtools/vehicles/vehicle.py', 'omgtools/environment/obstacle.py', 'omgtools/problems/problem.py'],
    [('Simulator.run / Problem.simulate', 'omgtools/execution/simulator.py'), ('Obstacle.simulate', 'omgtools/environment/obstacle.py'), ('hyperplane collision constraints', 'omgtools/vehicles/vehicle.py')],
    ['recorded vehicle poses and obstacle positions'],
    tech='recorded motion is judged against the obstacles\' actual recorded motion with an independent distance oracle, under seeded schedules and obstacle trajectory events',
    note='Judged at samples; steps whose premise fails (disturbed vehicle, failed solve, surprising obstacle) are not judged.')

add('C06', 'Clock, recorded histories and plan log agree',
    'After every simulation step the clock, the recorded histories of all vehicles and the recorded histories of all obstacles cover exactly the same evenly spaced instants, '
    'each step adds exactly the samples its duration spans, and no recorded sample is ever changed afterwards. For every recorded sample the plan that was in force then is logged unchanged.',
    ['schedules', 'histories', 'fault_sequences'],
    'all sequences of step durations, plans that run out, pushes, solver failures, disturbances, for all problem types',
    'The tests use one step duration that divides the horizon and never compare lengths of the records; off-by-one-sample drift needs particular durations or a plan that runs out.',
    ['omgtools/execution/simulator.py', 'omgtools/vehicles/vehicle.py', 'omgtools/environment/obstacle.py', 'omgtools/environment/environment.py', 'omgtools/problems'],
    [('update_timing', 'omgtools/execution/simulator.py'), ('Vehicle.simulate / traj_storage', 'omgtools/vehicles/vehicle.py'), ('Obstacle.simulate', 'omgtools/environment/obstacle.py')],
    ['recorded signals, clock ticks and logged plans'],
    tech='step-by-step history invariants under seeded step durations and faults',
    note='Update instants are whole samples.')

add('C08', 'Recorded states are the recorded inputs integrated',
    'The recorded state history of every vehicle is the solution of that vehicle\'s documented equations of motion for the recorded inputs, continuing from one step to the next without jumps, '
    'and the recorded pose belongs to the recorded state. With an input lag the recorded inputs are the first order response to the plan; vehicles declared ideal follow their plan exactly.',
    ['schedules', 'inputs', 'fault_sequences'],
    'all vehicle types, input disturbances, input lags, pushes, step durations, failed solves',
    'The tests never re-integrate a history; a model error, a wrong interpolation of inputs, or a lost sample between steps leaves every example running.',
    ['omgtools/vehicles'],
    [('Vehicle.integrate_ode / simulate', 'omgtools/vehicles/vehicle.py'), ('ode of each vehicle', 'omgtools/vehicles/*.py')],
    ['recorded signals'],
    tech='refinement of each simulated step against an independent RK4 model, under seeded disturbances, lags, pushes and step durations',
    note='Reference integrator RK4 with 4 substeps per sample; tolerance 2e-5.')


def na(id, title, statement, over, otext, why, files, mech, reason):
    add(id, title, statement, over, otext, why, files, mech, claimed=False, reason=reason)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'meta_more.py')).read())


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    PROPS.sort(key=lambda p: p['id'])
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['otext']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            d['anchors']['hook_needed'] = p['hook']
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': './run.sh setup',
         'hooks': {'guard': 'none', 'enable': 'no hooks: the simulator replaces module attributes (time, random numbers, solver, file and process calls) from outside', 'source_commits': []},
         'checks': [], 'not_applicable': [],
         'notes': 'Every check: ./run.sh check <id> quick|thorough; VERIF_SEED selects the seed. Replay: ./run.sh replay <file>.'}
    for p in PROPS:
        if p['claimed']:
            m['checks'].append({'property': p['id'], 'quick_cmd': './run.sh check %s quick' % p['id'],
                                'thorough_cmd': './run.sh check %s thorough' % p['id'],
                                'technique': SIM + p['tech'], 'level': 'exploration', 'level_note': p['note']})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
