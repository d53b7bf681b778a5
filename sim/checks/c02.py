"""C02: every plan the solver calls a success obeys the vehicle's limits, stays
in the room, clears every obstacle as predicted and ends at rest (at the
target when the duration is free)."""
import math
from .. import scen, oracles, gen as G
from ..loop import Loop

RUNS = {'quick': 120, 'thorough': 1400}
CPU = 150
SHRINK_INTS = {'steps': 1}
SHRINK_LISTS = ('events', 'slices')
RULE = 'non-trivial: at least one successful plan was judged against limits, room and obstacles; distinct: different event log'
STATE_MEASURE = 'vehicle type x obstacle shape x vehicle shape x moving x late step, for plans that come within 5 cm of an obstacle'
REAL = ['Simulator', 'Deployer', 'Problem (constraint construction, parameters)', 'Vehicle models', 'Environment and obstacles', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of update instants', 'random numbers (seeded)', 'solver status (on injected faults)']
ASSUMPTIONS = ['plans are judged at their samples', 'tolerances: 5e-3 relative on limits, 4 mm on distances (solver tolerance 1e-6, scaled)',
               'obstacles keep their acceleration over the horizon (what the planner is told)']

KINDS = [('holo', 30), ('h1d', 4), ('h3d', 14), ('dubins', 11), ('quad', 10), ('bike', 3), ('agv', 1), ('orient', 1), ('squad3', 3), ('quad3', 2),
         ('fleet', 10), ('formation', 6), ('rendezvous', 3), ('central', 2)]


def gen(r, i, tier):
    k = scen.pick(r, KINDS)
    s = scen.scenario(r, k, push=.35, solver=.2, disturb=.15, retarget=.15 if k in ('holo', 'h1d', 'h3d') else 0., steps=None)
    if k == 'holo' and r.random() < .15:
        s['world']['problem']['options']['hard_term_con'] = True
    if k == 'holo' and r.random() < .2:
        for o in s['world']['obstacles']:
            if 'vel' in o and r.random() < .5:
                o['acc'] = [round(r.uniform(-.01, .01), 4) for _ in range(2)]
    if k == 'h3d' and not s['world']['problem'].get('freeT') and r.random() < .5:
        # asked to go closer to a wall than its size allows
        v = s['world']['vehicles'][0]
        v['xT'][r.randrange(3)] = r.choice([-1, 1])*2.49
        if r.random() < .7:
            v['shape'] = {'k': 'sphere', 'r': round(r.uniform(.1, .25), 3)}
    if k == 'rendezvous' and r.random() < .6:
        s['world']['problem']['options']['horizon_time'] = r.choice([2., 3., 4.])
    if k in ('formation', 'rendezvous'):
        w = s['world']
        if r.random() < .4:
            # every agent has its own limits and shape, though not its own program
            for v in w['vehicles'][r.choice([0, 1]):]:
                v['bounds'] = G.bounds(r, 'Holonomic')
                if r.random() < .7:
                    v['shape'] = {'k': 'circle', 'r': round(r.uniform(.07, .14), 3)} if r.random() < .7 else {'k': 'square', 'w': round(r.uniform(.12, .25), 3)}
        if r.random() < .5:
            x = [round(r.uniform(-.3, .3), 3), round(r.uniform(-1.3, 1.3), 3)]
            if min(math.hypot(v['x0'][0]-x[0], v['x0'][1]-x[1]) for v in w['vehicles']) > .75:
                o = {'pos': x, 'shape': {'k': 'circle', 'r': round(r.uniform(.1, .25), 3)} if r.random() < .6 else {'k': 'rect', 'w': round(r.uniform(.15, .4), 3), 'h': round(r.uniform(.15, .4), 3)}}
                if r.random() < .5:
                    o['vel'] = [round(r.uniform(-.1, .1), 3) for _ in range(2)]
                w['obstacles'].append(o)
    if k in ('holo', 'quad', 'dubins') and r.random() < .5:
        scen.change_of_mind(r, s, acc=.7)
    return s


def run(spec, R):
    Loop(spec, R, [oracles.PlanOk()]).run()
