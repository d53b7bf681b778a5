"""C03: what an undisturbed vehicle drives between two replans on a successful
plan is inside the room, inside its limits and clear of obstacles that kept to
their predicted motion, and of the other vehicles it avoids."""
from .. import scen, oracles
from ..loop import Loop

RUNS = {'quick': 100, 'thorough': 1400}
CPU = 150
SHRINK_INTS = {'steps': 1}
SHRINK_LISTS = ('events', 'slices')
RULE = 'non-trivial: at least one driven step was judged against the actual obstacles; distinct: different event log'
STATE_MEASURE = 'vehicle type x obstacle shape x vehicle shape x moving x late step, for steps driven within 5 cm of an obstacle'
REAL = ['Simulator', 'Deployer', 'Problem', 'Vehicle models and simulate()', 'Environment and Obstacle.simulate()', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of update instants', 'random numbers (seeded)', 'solver status (on injected faults)']
ASSUMPTIONS = ['judged at the samples of the record, to 5 mm', 'a step is judged when its plan was a success, the vehicle was not disturbed '
               'before and the obstacle moved as its state at the replan said']

KINDS = [('holo', 44), ('h3d', 8), ('dubins', 12), ('quad', 12), ('fleet', 14), ('formation', 4), ('bike', 2)]


def gen(r, i, tier):
    k = scen.pick(r, KINDS)
    kw = {}
    if k == 'holo':
        kw = dict(n_obs=r.choice([1, 1, 2, 2]))
    if k in ('dubins', 'quad'):
        kw = dict(n_obs=1)
    s = scen.scenario(r, k, solver=.2, steps={'holo': 40, 'h3d': 40, 'dubins': 26, 'quad': 26, 'fleet': 30}.get(k), **kw)
    # obstacles that change their mind
    if k == 'holo' and r.random() < .3:
        scen.change_of_mind(r, s)
    return s


def run(spec, R):
    Loop(spec, R, [oracles.ExecutedOk()]).run()
