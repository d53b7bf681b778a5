"""C01: every new plan starts at the state predicted for the instant it takes
effect, and (where the vehicle's plan fixes it) with the input in force then."""
from ..loop import *
from .. import scen

RUNS = {'quick': 120, 'thorough': 1500}
CPU = 150
MIN_S = 60
SHRINK_LISTS = ('events', 'slices')
SHRINK_INTS = {'steps': 2}
RULE = ('a run counts as non-trivial when at least one replanning instant after the first was compared with the '
        'independent prediction; two runs are distinct when their event logs (all states, plans and solver results) differ')
STATE_MEASURE = 'vehicle type x problem kind x (lateness in samples, early/late/nominal) x measurement offset present'
REAL = ['Simulator', 'Deployer', 'Problem/Point2point/Formation/RendezVous', 'Vehicle models', 'Environment', 'ADMM updater', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of update instants (simulated)', 'plant in deployer mode (independent RK4)', 'sensor (offset injected)', 'random numbers (seeded)']
ASSUMPTIONS = ['update instants are whole multiples of the sample time', 'plans whose solve did not succeed are not judged',
               'tolerance 1e-3 plus what the solver tolerance 1e-6 leaves']

KINDS = [('holo', 22), ('deploy', 26), ('h1d', 6), ('h3d', 6), ('dubins', 10), ('quad', 8), ('bike', 4), ('orient', 1),
         ('fleet', 5), ('formation', 7), ('rendezvous', 3), ('central', 4), ('squad3', 4), ('quad3', 2)]
DEPLOY = [('holo', 10), ('h1d', 3), ('h3d', 2), ('dubins', 8), ('quad', 5), ('bike', 3), ('fleet', 3), ('formation', 4)]


def gen(r, i, tier):
    k = scen.pick(r, KINDS)
    if k == 'deploy':
        k = scen.pick(r, DEPLOY)
        s = scen.scenario(r, k, push=.5)
        s['mode'] = 'deploy'
        if r.random() < .5:
            s['t0'] = r.choice([.7, 3.2, 12.34, 100.])
        return s
    s = scen.scenario(r, k, push=.5 if k != 'orient' else 0., disturb=.2 if k in ('holo', 'h1d', 'h3d') else 0.,
                      delay=.1 if k == 'holo' else 0., ideal=.1)
    if any(v['options'].get('ideal_prediction') for v in s['world']['vehicles']):
        s['events'] = []
    s['mode'] = 'sim'
    return s


# state components the vehicle's plan takes from the measurement; the others
# it takes from the plan in force
MEAS = {'Bicycle': [0, 1, 2], 'AGV': [0, 1, 2]}
# inputs the plan keeps continuous
CONT = {'Holonomic': [0, 1], 'Holonomic1D': [0], 'Holonomic3D': [0, 1, 2], 'HolonomicOrient': [0, 1], 'Dubins': [0, 1],
        'Quadrotor': [0], 'Bicycle': [0], 'AGV': [0]}
TOL = 1e-3
wrap_ = models.wrap


def judge(R, d, Ts, k, t, plan, expected, inp, how, alt=None):
    x = plan['state'][:, 0]
    if d['type'] in ('Bicycle', 'AGV') and abs(wrap_(expected[3])) > 1.2:
        # an interrupted solve left a plan that turns the wheel through a right
        # angle, where the vehicle's equations of motion are singular
        R.probe('singular_steering')
        return
    comp = range(len(x)) if how != 'meas' else MEAS.get(d['type'], range(len(x)))
    e = models.state_diff(d, x, expected)[list(comp)]
    if alt is not None:
        e2 = models.state_diff(d, x, alt)[list(comp)]
        e[:2] = np.where(np.abs(e2[:2]) < np.abs(e[:2]), e2[:2], e[:2])
    R.check(np.abs(e).max() <= TOL, 'plan-start-state',
            lambda: 'step %d t=%.4f %s: plan starts at %s, predicted state %s' % (k, t, d['type'], np.round(x, 5), np.round(expected, 5)))
    c = CONT.get(d['type'])
    if inp is not None and c:
        du = np.abs(plan['input'][c, 0] - inp[c]).max()
        R.check(du <= (2e-3 if d['type'] != 'Quadrotor' else 5e-3), 'plan-start-input',
                lambda: 'step %d t=%.4f %s: plan starts with input %s, input in force is %s' % (
                    k, t, d['type'], np.round(plan['input'][:, 0], 5), np.round(inp, 5)))


class Obs(Observer):
    def before_update(self, L):
        self.pre = []
        for v in L.vs:
            self.pre.append(None if not hasattr(v, 'signals') else {k: v.signals[k].copy() for k in ('state', 'input')})

    def after_update(self, L):
        R = L.R
        nom = int(round(L.Tu/L.Ts))
        for i, v in enumerate(L.vs):
            d = L.w['vehicles'][i]
            tr = v.trajectories
            if L.plan_exhausted(v):
                R.probe('plan_end')
                continue
            R.check(abs(tr['time'][0, 0] - L.t) < 1e-6, 'plan-time', lambda: 'step %d: plan time axis starts at %r at time %r' % (L.k, tr['time'][0, 0], L.t))
            if not L.ok(v):
                R.probe('solve_not_successful')
                continue
            if L.prev_plan[i] is None:
                x0 = np.zeros(tr['state'].shape[0])
                x0[:len(d['x0'])] = d['x0']
                judge(R, d, L.Ts, L.k, L.t, tr, x0, np.zeros(tr['input'].shape[0]) if d['type'] != 'Quadrotor' else None, 'meas')
                continue
            m = L.last_m
            n = min(nom, m)
            delay = m - n
            pp = L.prev_plan[i]
            if n == 0 or delay + n > pp['input'].shape[1] - 1:
                R.probe('plan_end')
                continue
            R.state(d['type'], L.w['problem']['kind'], L.w['problem'].get('freeT', False), min(delay, 12), 'early' if m < nom else '', self.offset(L, i))
            o = d.get('options') or {}
            clean = not (o.get('input_disturbance') or o.get('1storder_delay'))
            alt = None
            if o.get('ideal_prediction') and not o.get('ideal_update'):
                exp, how = pp['state'][:, n+delay], 'all'
                if d['type'] in ('Dubins', 'Bicycle', 'AGV'):
                    alt = self.pre[i]['state'][:, -1]
            else:
                s = self.pre[i]['state']
                exp = models.rk4(models.ode(d), s[:, -n-1], pp['input'][:, delay:], L.Ts, n)[:, -1]
                how = 'meas'
                if o.get('ideal_update'):
                    alt = s[:, -1] if d['type'] in ('Dubins', 'Bicycle', 'AGV') else None
                elif clean and not self.pushed(L, i):
                    how = 'all'
                    # nothing disturbed it: what is predicted is where it is
                    e = models.state_diff(d, s[:, -1], exp)
                    exp = s[:, -1]
                elif d['type'] in ('Dubins', 'Bicycle', 'AGV'):
                    alt = s[:, -1]          # samples its plan from where it is
            judge(R, d, L.Ts, L.k, L.t, tr, exp, pp['input'][:, n+delay], how, alt)
            R.probe('compared')

    def after_simulate(self, L):
        n = L.vs[0].signals['state'].shape[1]
        L.last_m = n - getattr(L, 'last_n', 1)
        L.last_n = n

    def pushed(self, L, i):
        return any(e['kind'] == 'push' for e in L.spec['events'] if e['k'] <= L.k)

    def offset(self, L, i):
        return any(e['kind'] == 'push' for e in L.events.get(L.k, []))


def run(spec, R):
    if spec['mode'] == 'sim':
        Loop(spec, R, [Obs()]).run()
    else:
        deploy(spec, R)


def deploy(spec, R, obs=()):
    """the Deployer alone: the harness is the plant and the sensor.  At each
    instant the caller hands in states measured one update time earlier."""
    with quiet():
        L = Loop(spec, R, obs)
        nom = int(round(L.Tu/L.Ts))
        dep = Deployer(L.pr, L.Ts, L.Tu)
        dep.reset()
        L.sim = None
        t = t0 = spec.get('t0', 0.)
        odes = [models.ode(d) for d in L.w['vehicles']]
        truth = []
        for d in L.w['vehicles']:
            x0 = np.array(d['x0'], dtype=float)
            if d['type'] == 'Quadrotor':
                x0 = np.r_[x0, np.zeros(3)]
            truth.append(x0)
        multi = len(L.vs) > 1
        L.k, L.t = 0, t
        for o in obs:
            o.start(L)
        dep.update(t)
        for o in obs:
            o.after_update(L)
        plans = [copy.deepcopy(v.trajectories) for v in L.vs]
        for i, (d, v) in enumerate(zip(L.w['vehicles'], L.vs)):
            if L.ok(v):
                judge(R, d, L.Ts, 0, t0, plans[i], truth[i], np.zeros(plans[i]['input'].shape[0]) if d['type'] != 'Quadrotor' else None, 'meas')
        obs0 = [{q: np.array(o.signals[q][:, -1]) for q in ('position', 'velocity', 'acceleration')} for o in L.env.obstacles]
        for k in range(1, spec['steps']):
            m = spec['slices'][k % len(spec['slices'])]
            if m < nom:
                m = nom
            avail = min(p['input'].shape[1] - 1 for p in plans)
            if m + 2 > avail:
                R.probe('plan_end')
                break
            if m > nom:
                R.fault('late_update')
            delay = m - nom
            t = round(t + m*L.Ts, 9)
            L.k, L.t = k, t
            meas, exps = [], []
            for i, d in enumerate(L.w['vehicles']):
                seg = models.rk4(odes[i], truth[i], plans[i]['input'], L.Ts, delay)
                xm = seg[:, -1].copy()
                for e in spec['events']:
                    if e['k'] == k and e['vehicle'] == i:
                        dx = np.zeros(len(xm))
                        mm = min(len(dx), len(e['dx']))
                        dx[:mm] = e['dx'][:mm]
                        xm = xm + dx
                        R.fault('measurement_offset')
                meas.append(xm)
                ex = models.rk4(odes[i], xm, plans[i]['input'][:, delay:], L.Ts, nom)[:, -1]
                exps.append(ex)
            for o, s in zip(L.env.obstacles, obs0):
                o.set_state({'position': s['position'] + s['velocity']*(t - t0), 'velocity': s['velocity']})
            for i in range(len(L.vs)):
                L.prev_plan = plans
            dep.update(t, [x.copy() for x in meas] if multi else (list(map(float, meas[0])) if k % 2 else meas[0].copy()))
            for o in obs:
                o.after_update(L)
            R.log('deploy', k, t, *[x for x in meas])
            R.simtime += m*L.Ts
            R.reached = True
            newp = [copy.deepcopy(v.trajectories) for v in L.vs]
            for i, (d, v) in enumerate(zip(L.w['vehicles'], L.vs)):
                R.log('plan', newp[i]['state'][:, 0], newp[i]['state'][:, -1])
                if L.ok(v):
                    R.state('deploy', d['type'], L.w['problem']['kind'], L.w['problem'].get('freeT', False), min(delay, 12),
                            any(e['k'] == k for e in spec['events']))
                    exp, how = exps[i], 'meas'
                    judge(R, d, L.Ts, k, t, newp[i], exp, plans[i]['input'][:, nom+delay], how)
                    R.probe('compared')
                else:
                    R.probe('solve_not_successful')
            plans = newp
            truth = exps
