"""C06: one clock: records of vehicles, obstacles and clock are evenly sampled,
equally long, append only, and log the plan in force at every sample."""
from .. import scen, oracles
from ..loop import Loop

RUNS = {'quick': 110, 'thorough': 1500}
CPU = 150
SHRINK_INTS = {'steps': 1}
SHRINK_LISTS = ('events', 'slices')
RULE = 'non-trivial: at least one step of the record was judged; distinct: different event log'
STATE_MEASURE = 'samples per step x step cut short x problem kind'
REAL = ['Simulator', 'Deployer', 'Problem', 'Vehicle store/simulate', 'Obstacle.simulate', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of update instants', 'random numbers (seeded)', 'solver status (on injected faults)']
ASSUMPTIONS = ['update instants are whole multiples of the sample time']

KINDS = [('holo', 30), ('h1d', 20), ('h3d', 4), ('dubins', 10), ('quad', 6), ('fleet', 6), ('formation', 8), ('rendezvous', 4), ('central', 5)]


def gen(r, i, tier):
    k = scen.pick(r, KINDS)
    full = k in ('holo', 'h1d', 'fleet') and r.random() < .6
    s = scen.scenario(r, k, push=.2, solver=.3, disturb=.2, delay=.15, ideal=.1, steps=70 if full else None)
    if k in ('holo', 'h1d', 'h3d', 'dubins', 'formation') and r.random() < .25:
        s['world']['problem']['options'].setdefault('horizon_time', 6.) if not s['world']['problem'].get('freeT') else None
        scen.stall(r, s)
    return s


def run(spec, R):
    Loop(spec, R, [oracles.History()]).run()
