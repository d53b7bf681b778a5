"""C08: the recorded state history is the integral of the recorded inputs under
the vehicle's own model, whatever the disturbance and the update schedule."""
from .. import scen, oracles
from ..loop import Loop

RUNS = {'quick': 110, 'thorough': 1500}
CPU = 150
SHRINK_INTS = {'steps': 1}
SHRINK_LISTS = ('events', 'slices')
RULE = 'non-trivial: at least one simulated step was compared with the reference integrator; distinct: different event log'
STATE_MEASURE = 'vehicle type x disturbance x input lag x late step x solve successful'
REAL = ['Simulator', 'Deployer', 'Problem', 'Vehicle models and simulate()', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of update instants', 'random numbers (seeded)', 'solver status (on injected faults)']
ASSUMPTIONS = ['inputs vary linearly between samples (as the vehicle model assumes)', 'reference integrator: RK4 with 4 substeps per sample']

KINDS = [('holo', 18), ('h1d', 6), ('h3d', 6), ('dubins', 16), ('quad', 12), ('bike', 8), ('agv', 2), ('orient', 2), ('squad3', 4), ('quad3', 3),
         ('fleet', 4), ('formation', 5), ('rendezvous', 2), ('central', 3)]


def gen(r, i, tier):
    k = scen.pick(r, KINDS)
    if i == 7 or (tier != 'quick' and i % 60 == 7):
        k = 'trailer'
    return scen.scenario(r, k, push=.3, solver=.3, disturb=.35 if k != 'trailer' else 0., delay=.3 if k not in ('trailer',) else 0., ideal=.12)


def run(spec, R):
    Loop(spec, R, [oracles.Integral()]).run()
