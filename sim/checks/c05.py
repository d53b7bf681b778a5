"""C05: a run reports arrival exactly when every vehicle is at its target and at
rest, to the tolerance the user set."""
from .. import scen, models, gen as G
from ..loop import *
import math

RUNS = {'quick': 130, 'thorough': 1600}
CPU = 150
SHRINK_INTS = {'steps': 1}
SHRINK_LISTS = ('events', 'slices')
RULE = 'non-trivial: at least one step was judged for arrival; distinct: different event log'
STATE_MEASURE = 'vehicle type x problem kind x reported x position within tolerance x speed within tolerance (of the worst vehicle)'
REAL = ['Simulator', 'Deployer', 'Problem.stop_criterium', 'Vehicle.check_terminal_conditions', 'Vehicle.simulate', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of update instants', 'random numbers (seeded)', 'solver status and iterate (on injected faults)']
ASSUMPTIONS = ['a margin of 1 % around the tolerance is not judged', 'plans of free duration end the run when less than one update time of motion is left: judged when the last solve was a success '
               'and nothing hit the vehicle in the last three updates']

KINDS = [('holo', 26), ('h1d', 14), ('h3d', 8), ('dubins', 12), ('quad', 10), ('squad3', 6), ('quad3', 4), ('bike', 2), ('orient', 1),
         ('fleet', 12), ('formation', 6), ('rendezvous', 5)]
TIM = [(.01, 20), (.01, 25), (.02, 15), (.05, 6), (.1, 3), (.01, 10)]
VEL = {'Quadrotor': slice(2, 4), 'SimpleQuadrotor3D': slice(3, 6), 'Quadrotor3D': slice(3, 6)}


def gen(r, i, tier):
    k = scen.pick(r, KINDS)
    near = r.random() < .7
    kw = {'dist': (.2, .9) if near else (.9, 2.2), 'n_obs': 0}
    if k in ('holo', 'dubins', 'quad', 'bike', 'orient'):
        if k == 'bike':        # a short path takes IPOPT ages
            kw = {'dist': (1.2, 2.2)}
        if k == 'orient':
            kw.pop('n_obs', None)
        w = scen.world_of(r, k, **kw)
    else:
        w = scen.world_of(r, k)
    if k in ('squad3', 'quad3', 'h3d') and near:
        for v in w['vehicles']:
            s = r.uniform(.2, .5)
            v['xT'] = [round(v['x0'][q] + s*(v['xT'][q] - v['x0'][q]), 3) for q in range(3)]
    if k == 'fleet':
        if r.random() < .6:          # one of them is there already
            q = r.randrange(2)
            w['vehicles'][q]['xT'] = list(w['vehicles'][q]['x0'])
        if near:
            for v in w['vehicles']:
                v['xT'] = [round(v['x0'][q] + .3*(v['xT'][q] - v['x0'][q]), 3) for q in range(2)]
    if k == 'formation':
        for v in w['vehicles']:
            s = .15
            v['x0'] = [round(v['xT'][q] - s*(v['xT'][q] - v['x0'][q]), 3) for q in range(2)]
    for v in w['vehicles']:
        o = v.setdefault('options', {})
        o.pop('syslimit', None)
        if k in ('quad3', 'squad3'):
            o['stop_tol'] = r.choice([.05, .1, .3, .5])
        else:
            o['stop_tol'] = r.choice([.01, .02, .05, .1, .1, .3, 1.2]) if k != 'formation' else r.choice([.1, .2])
    steps = {'bike': 11, 'orient': 10, 'formation': 30, 'rendezvous': 30, 'dubins': 30, 'quad': 40, 'quad3': 12, 'squad3': 30}.get(k, 45)
    s = scen.scenario(r, k, world=w, timings=TIM, steps=steps, push=.4, solver=.3, amp=.08, disturb=.2 if k in ('holo', 'h1d') else 0.,
                      ideal=.1 if k in ('holo', 'dubins') else 0.)
    nv = len(w['vehicles'])
    if r.random() < .4 and k in ('holo', 'h1d', 'h3d', 'quad', 'squad3', 'fleet'):
        for _ in range(r.randint(1, 2)):       # the target is moved to where the vehicle is passing
            s['events'].append({'k': r.randint(2, 10), 'kind': 'target_here', 'vehicle': r.randrange(nv), 'dx': round(r.uniform(-.01, .01), 4)})
    return s


class ArriveLoop(Loop):
    def apply(self, e):
        if e['kind'] == 'target_here':
            v = self.vs[e['vehicle']]
            if hasattr(v, 'signals'):
                d = self.w['vehicles'][e['vehicle']]
                x = v.signals['state'][:len(d['xT']), -1] + e['dx']
                v.set_terminal_conditions(np.array(x))
                d['xT'] = [float(q) for q in x]
                self.R.fault('target_here')
            return
        if e['kind'] == 'push':
            self.last_push = self.k
        Loop.apply(self, e)


def errors(L, i):
    """distance and speed of vehicle i as recorded"""
    d, v = L.w['vehicles'][i], L.vs[i]
    x, u, p = v.signals['state'][:, -1], v.signals['input'][:, -1], v.signals['pose'][:, -1]
    t = d['type']
    xT = np.ravel(d['xT']).astype(float)
    if t in VEL:
        return float(np.linalg.norm(p[:len(xT)] - xT)), float(np.linalg.norm(x[VEL[t]]))
    if t in ('Bicycle', 'AGV'):
        return float(np.linalg.norm(x[:3] - xT[:3])), float(np.linalg.norm(u))
    return float(np.linalg.norm(x - xT)), float(np.linalg.norm(u))


class Judge(Observer):
    def start(self, L):
        L.last_push = -99

    def after_simulate(self, L):
        R = L.R
        if L.w['problem']['kind'] == 'rendezvous':
            return self.meet(L)
        E = [errors(L, i) for i in range(len(L.vs))]
        tol = [d['options']['stop_tol'] for d in L.w['vehicles']]
        surely = all(p <= .99*t and s <= .99*t for (p, s), t in zip(E, tol))
        surely_not = any(p > 1.01*t or s > 1.01*t for (p, s), t in zip(E, tol))
        d0 = L.w['vehicles'][0]
        R.state(d0['type'], L.w['problem']['kind'], L.stop_now, max(p/t for (p, s), t in zip(E, tol)) < 1, max(s/t for (p, s), t in zip(E, tol)) < 1)
        text = lambda: 'step %d %s: distances %s, speeds %s, tolerances %s' % (
            L.k, d0['type'], [round(p, 5) for p, _ in E], [round(s, 5) for _, s in E], tol)
        if surely and d0['type'] == 'Quadrotor3D' and not all(np.linalg.norm(v.signals['input'][:, -1]) - 9.81 < .99*t for v, t in zip(L.vs, tol)):
            surely = False
        if surely:
            R.check(L.stop_now, 'arrival-missed', lambda: text() + ': arrived, but not reported')
            R.probe('arrived')
        elif surely_not and not L.w['problem'].get('freeT'):
            R.check(not L.stop_now, 'arrival-false', lambda: text() + ': arrival reported')
        elif surely_not and L.stop_now:
            if not L.ok() and not L.spec.get('finding'):
                R.probe('free_time_end_after_failed_solve')     # recorded finding F1
                return
            if L.k - L.last_push < 4 or not self.clean(L):
                R.probe('end_disturbed')
                return
            for i, (d, v) in enumerate(zip(L.w['vehicles'], L.vs)):
                xy = models.target_xy(d)
                X = v.signals['pose'][:len(xy), :]
                e = float(np.linalg.norm(X[:, -1] - xy))
                last = float(np.linalg.norm(X[:, -1] - X[:, -2])) if X.shape[1] > 1 else 0.
                R.check(e <= 2*last + 5e-3 + 2*L.Ts*.05, 'arrival-false-free', lambda: text() + ': the run ended %.4f away (last sample moved %.4f)' % (e, last))
            R.probe('free_time_end')
        R.probe('judged')

    def clean(self, L):
        return not any(d['options'].get('input_disturbance') or d['options'].get('1storder_delay') for d in L.w['vehicles'])

    def meet(self, L):
        """vehicles that meet: relative positions as agreed (judged where this update started)"""
        R = L.R
        if not all(L.ok(v) for v in L.vs) or L.k - L.last_push < 4 or not self.clean(L):
            R.probe('meeting_not_judged')
            return
        conf = np.array(L.w['problem']['configuration'])
        X = np.array([s[:2] for s in L.start_state])
        err = []
        n = len(X)
        for a in range(n):
            for b in range(a):
                err.append(np.linalg.norm((X[a] - X[b]) - (conf[a] - conf[b])))
        # each pair is seen from both sides
        tot = math.sqrt(2*sum(e**2 for e in err))
        R.probe('meeting_judged')
        R.state('rendezvous', L.stop_now, tot < .05)
        if L.stop_now:
            R.check(tot <= .056, 'meeting-false', lambda: 'step %d: meeting reported, relative positions off by %s' % (L.k, np.round(err, 4)))
        else:
            R.check(tot >= .044, 'meeting-missed', lambda: 'step %d: met to %s, not reported' % (L.k, np.round(err, 4)))


def run(spec, R):
    ArriveLoop(spec, R, [Judge()]).run()


def fixed(tier):
    """recorded finding: see known_findings.json"""
    yield {'world': {'vehicles': [{'type': 'Dubins', 'x0': [0., 0., .3], 'xT': [.8, .4, .5], 'options': {'stop_tol': .05}}],
                     'room': {'k': 'square', 'w': 5.}, 'obstacles': [], 'problem': {'kind': 'p2p', 'freeT': True, 'options': {}}},
           'Ts': .01, 'Tu': .3, 'kind': 'dubins', 'steps': 9, 'slices': [], 'np_seed': 1, 'finding': 'F1',
           'events': [{'k': 6, 'kind': 'solver', 'status': 'Infeasible_Problem_Detected', 'progress': .5, 'agent': 0}]}
