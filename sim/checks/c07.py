"""C07: a failed optimisation is announced and contained, and the planner
recovers once the failures stop."""
from .. import scen, models
from ..loop import *

RUNS = {'quick': 120, 'thorough': 1500}
CPU = 150
SHRINK_INTS = {'steps': 1}
SHRINK_LISTS = ('events', 'slices')
RULE = 'non-trivial: at least one optimisation failed and the steps after it were judged; distinct: different event log'
STATE_MEASURE = 'vehicle type x problem kind x free duration x status of the failed solve x length of the burst'
REAL = ['Simulator', 'Deployer', 'Problem', 'ADMM', 'Vehicle models and simulate()', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of update instants', 'random numbers (seeded)', 'solver status and iterate (on injected faults)']
ASSUMPTIONS = ['an interrupted solve leaves an iterate between its initial guess and the solution',
               'recovery is judged for vehicles that can always stop, in a room without obstacles, with limits per axis, counting the updates at which they start from a speed within their limits; a vehicle that drives on an unfinished plan (or on the straight line that replaces it after a time-out, which respects no limit) may otherwise end up where no plan is possible']
KINDS = [('holo', 34), ('h1d', 14), ('h3d', 6), ('dubins', 12), ('quad', 8), ('bike', 5), ('orient', 2), ('squad3', 4), ('quad3', 2),
         ('fleet', 8), ('formation', 8), ('rendezvous', 3), ('central', 4)]
BENIGN = ('holo', 'h1d', 'h3d', 'formation')
WITHIN = 8


def gen(r, i, tier):
    k = scen.pick(r, KINDS)
    kw = {}
    benign = k in BENIGN and r.random() < .75
    if benign and k in ('holo', 'h3d'):
        kw['n_obs'] = 0
    w = scen.world_of(r, k, **kw)
    if benign:
        for v in w['vehicles']:
            v.get('options', {}).pop('syslimit', None)
    s = scen.scenario(r, k, world=w, push=0. if benign else .2, solver=0., disturb=.15 if k != 'central' else 0.)
    steps = s['steps'] = min(s['steps'], 20) if k in ('holo', 'h1d', 'h3d') else s['steps']
    nv = len(w['vehicles'])
    ev = []
    for _ in range(r.randint(1, 3)):
        k0 = r.randint(0, max(1, steps-4))
        st = r.choice(scen.STATUS if k != 'central' or not benign else scen.STATUS[2:])
        who = [r.randrange(nv)] if r.random() < .6 else list(range(nv))
        for q in range(r.choice([1, 1, 1, 2, 3, 5])):
            for a in who:
                ev.append({'k': k0+q, 'kind': 'solver', 'status': st, 'progress': r.choice([0., .3, .9, 1.]), 'agent': a})
    s['events'] += ev
    s['benign'] = benign
    if benign:
        s['steps'] = max(e['k'] for e in s['events']) + 2*WITHIN + 2
    return s


class Contained(Observer):
    def start(self, L):
        self.n = 1
        self.waiting = None
        self.burst = 0

    def before_update(self, L):
        self.mark = len(L.out.getvalue()) if L.out is not None else 0

    def after_update(self, L):
        R = L.R
        for i, v in enumerate(L.vs):
            tr = v.trajectories
            R.check(all(np.isfinite(tr[q]).all() for q in tr if np.asarray(tr[q]).dtype.kind == 'f'), 'not-finite', lambda: 'step %d: the plan of vehicle %d is not finite' % (L.k, i))
        forged = [s for s in L.solvers if getattr(s, 'forged', False)]
        if not forged:
            self.burst = 0
            if L.ok():
                if self.waiting is not None:
                    R.probe('recovered')
                    R.probe('recovered_after_%d' % min(9, L.k - self.waiting))
                self.waiting = None
            elif self.waiting is not None and L.spec.get('benign') and not any(L.plan_exhausted(v) for v in L.vs):
                if all(self.within(L, i, v) for i, v in enumerate(L.vs)):
                    self.chances += 1
                R.check(self.chances <= WITHIN, 'no-recovery', lambda: 'step %d: the last failure was at step %d and there is still no plan: %s' % (
                    L.k, self.waiting, L.status()))
            return
        self.burst += 1
        self.waiting = L.k
        self.chances = 0
        said = L.out.getvalue()[self.mark:] if L.out is not None else ''
        for s in forged:
            if not L.distributed() and s.status == 'Maximum_CpuTime_Exceeded' and L.t == 0.:
                continue          # documented: the first optimisation may take long
            if L.distributed() and L.k == 0:
                continue
            R.check(s.status in said, 'silent-failure', lambda: 'step %d: the solver returned %s and nothing was said' % (L.k, s.status))
        R.state(L.w['vehicles'][0]['type'], L.w['problem']['kind'], L.w['problem'].get('freeT', False), forged[0].status, min(self.burst, 3))
        if not L.distributed() and forged[0].status == 'Maximum_CpuTime_Exceeded' and L.t > 0.:
            for i, v in enumerate(L.vs):
                self.straight(L, i, v)

    def within(self, L, i, v):
        """the vehicle starts from a speed its limits allow"""
        u = np.asarray(v.prediction['input'], dtype=float).reshape(-1, 1)
        return models.limit_violation(L.w['vehicles'][i], {'input': u, 'dinput': 0*u, 'a': 0*u})[0] < -.02

    def straight(self, L, i, v):
        """after a time-out the guess leads straight to the target"""
        R = L.R
        d = L.w['vehicles'][i]
        tr = v.trajectories
        if L.plan_exhausted(v):
            return
        if d['type'] in ('Holonomic', 'Holonomic1D', 'Holonomic3D', 'Quadrotor'):
            P = tr['pose'][:len(d['xT'])]
            a = np.asarray(v.prediction['state'], dtype=float).ravel()[:len(d['xT'])]
            b = np.array(d['xT'], dtype=float)
            ln = np.linalg.norm(b - a)
            if ln < .1:
                return
            s = (b-a).dot(P - a.reshape(-1, 1))/ln**2
            off = np.abs(P - a.reshape(-1, 1) - (b-a).reshape(-1, 1)*s).max()
            R.check(off < 1e-6 and s.min() > -1e-6 and s.max() < 1+1e-6 and np.diff(s).min() > -1e-9, 'reset',
                    lambda: 'step %d %s: after a time-out the plan does not lead straight from where the vehicle is to its target (off by %.4f, from %.3f to %.3f of the way)' % (
                        L.k, d['type'], off, s[0], s[-1]))
            T = L.horizon(v)
            R.check(s[-1] > 1. - 5*L.Ts/T*4 - 1e-6, 'reset', lambda: 'step %d %s: after a time-out the plan ends at %.3f of the way' % (L.k, d['type'], s[-1]))
            R.probe('reset_judged')
        elif d['type'] == 'Dubins':
            R.check(np.abs(tr['input'][0]).max() < 1e-6, 'reset', lambda: 'step %d: after a time-out the car does not stop' % L.k)
            R.probe('reset_judged')

    def after_simulate(self, L):
        R = L.R
        n = L.vs[0].signals['time'].shape[1]
        m = int(round(L.dt/L.Ts))
        avail = min(v.trajectories['state'].shape[1] - 1 for v in L.vs)
        want = 0 if any(L.plan_exhausted(v) for v in L.vs) else min(m, avail)
        for v in L.vs:
            g = v.signals['time'].shape[1] - self.n
            R.check(g == want or (avail < m and abs(g - want) <= 1), 'rhythm', lambda: 'step %d: %d samples recorded instead of %d' % (L.k, g, want))
            R.check(np.isfinite(v.signals['state'][:, self.n:]).all() and np.isfinite(v.signals['input'][:, self.n:]).all(), 'not-finite',
                    'step %d: non-finite record' % L.k)
        self.n = n


def run(spec, R):
    Loop(spec, R, [Contained()]).run()
