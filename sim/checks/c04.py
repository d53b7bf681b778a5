"""C04: once disturbances and solver failures stop, the vehicles reach their
targets and the run ends, within a bounded time."""
from .. import scen, models, gen as G
from ..loop import *
import math

RUNS = {'quick': 60, 'thorough': 900}
CPU = 150
MIN_S = 90
SHRINK_INTS = {}
SHRINK_LISTS = ('events', 'slices')
RULE = 'non-trivial: the run was followed until it reported arrival or its bound ran out; distinct: different event log'
STATE_MEASURE = 'vehicle type x problem kind x free duration x fault kinds that fired'
REAL = ['Simulator', 'Deployer', 'Problem', 'Vehicle models and simulate()', 'Environment', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of update instants', 'random numbers (seeded)', 'solver status and iterate (on injected faults)']
ASSUMPTIONS = ['bound: twice the planning horizon (fixed duration), or the remaining duration of the plan found after the last fault plus 8 s (free duration)',
               'targets are reachable: an empty room or one static obstacle beside the straight line, other vehicles alongside (two vehicles meeting head on may wait for each other for ever: a local optimum)',
               'faults in the first 12 updates only', 'limits per axis: with a limit on the norm IPOPT itself gets stuck now and then', 'vehicles that cannot move sideways are not pushed',
               'a 3-D quadrotor gets no solver failures: what it drives meanwhile may leave it unable to stop inside the room']

KINDS = [('holo', 30), ('h1d', 10), ('h3d', 10), ('dubins', 14), ('quad', 14), ('fleet', 10), ('squad3', 4)]
TIM = [(.01, 20), (.01, 25), (.02, 15), (.05, 5), (.1, 3)]
NF = 12


def gen(r, i, tier):
    k = scen.pick(r, KINDS)
    kw = {}
    if k in ('holo', 'dubins', 'quad'):
        kw['n_obs'] = r.choice([0, 0, 1]) if k != 'dubins' else 0
        kw['moving'] = False
    w = scen.world_of(r, k, **kw) if k != 'fleet' else G.fleet2d(r, 2, 'p2p', crossing=False)
    for v in w['vehicles']:
        v.get('options', {}).pop('syslimit', None)
        v.get('options', {}).pop('substitution', None)
    s = scen.scenario(r, k, world=w, timings=TIM, steps=NF, push=.6 if k != 'dubins' else 0., solver=.6 if k != 'squad3' else 0., retarget=.3 if k in ('holo', 'h1d', 'h3d', 'quad') else 0.,
                      amp=.05, horizon=.3)
    nom = int(round(s['Tu']/s['Ts']))
    s['slices'] = s['slices'] + [nom]*400
    s['steps'] = 412
    s['events'] = [e for e in s['events'] if e['k'] <= NF]
    if k in ('dubins', 'quad'):
        # what such a vehicle executes after a solver time-out (a straight
        # line) may leave it unable to stop inside the room
        for e in s['events']:
            if e['kind'] == 'solver':
                e['status'] = r.choice(['Infeasible_Problem_Detected', 'Restoration_Failed', 'Maximum_Iterations_Exceeded'])
                e['progress'] = r.choice([.95, 1.])
    return s


class Arrive(Observer):
    def start(self, L):
        self.last = max([e['k'] for e in L.spec['events']] + [0])
        sl = L.spec['slices']
        nom = int(round(L.Tu/L.Ts))
        for q, m in enumerate(sl[:20]):
            if m != nom:
                self.last = max(self.last, q)
        self.bound = None

    def after_update(self, L):
        if L.k > self.last and self.bound is None and L.ok():
            Ts = [L.horizon(v) for v in L.vs]
            if L.w['problem'].get('freeT'):
                self.bound = L.t + max(Ts) + 8.
            else:
                self.bound = L.t + 2*max(Ts)
        if L.k > self.last + 30 and self.bound is None:
            L.R.violate('no-plan', 'no successful plan in 30 updates after the last fault (%s)' % L.status())
            raise Stop()

    def after_simulate(self, L):
        q, v = L.w['vehicles'][0], L.vs[0]
        if q['type'] == 'Dubins' and not L.stop_now and L.k > self.last and np.linalg.norm(v.signals['pose'][:2, -1] - models.target_xy(q)) < .05:
            L.R.probe('parked_near_the_target')     # parking to the last millimetre is a manoeuvre
            L.R.oracle += 1
            raise Stop()
        if self.bound is not None and L.t > self.bound and not L.stop_now:
            d = [float(np.abs(np.ravel(v.signals['pose'][:, -1])[:len(models.target_xy(q))] - models.target_xy(q)).max()) for v, q in zip(L.vs, L.w['vehicles'])]
            L.R.violate('not-arrived', '%s: %.1f s after the last fault the run has not ended; distances to the targets: %s' % (
                L.w['vehicles'][0]['type'], L.t, np.round(d, 4)))
            raise Stop()

    def end(self, L):
        R = L.R
        if L.stopped:
            R.oracle += 1
            R.probe('arrived')
            for v, q in zip(L.vs, L.w['vehicles']):
                xy = models.target_xy(q)
                e = float(np.abs(np.ravel(v.signals['pose'][:, -1])[:len(xy)] - xy).max())
                R.check(e < (.15 if q['type'] != 'SimpleQuadrotor3D' else .55), 'arrived-elsewhere', lambda: '%s: the run ended %.3f away from the target' % (q['type'], e))
            R.state(L.w['vehicles'][0]['type'], L.w['problem']['kind'], L.w['problem'].get('freeT', False), *sorted(R.faults))
        elif L.overrun and L.k >= L.max_steps:
            R.violate('not-arrived', 'the run did not end in %d updates' % L.k)


def run(spec, R):
    Loop(spec, R, [Arrive()]).run()
