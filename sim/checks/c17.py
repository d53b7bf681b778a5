"""C17: the search for a new plan starts from what is left of the plan in
force, placed at the right time."""
from ..loop import *
from .. import scen, gen as G
from . import c01
from scipy.interpolate import BSpline as _BS

RUNS = {'quick': 110, 'thorough': 1400}
CPU = 150
MIN_S = 60
SHRINK_LISTS = ('events', 'slices')
SHRINK_INTS = {'steps': 2}
RULE = 'non-trivial: at least one initial guess after the first was compared with the plan in force; distinct: different event log'
STATE_MEASURE = 'vehicle type x problem kind x knots passed at once x nonzero start time'
REAL = ['Simulator', 'Deployer', 'Problem and its subclasses', 'OptiFather', 'spline transformations', 'ADMM updater', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of update instants (simulated)', 'plant in deployer mode (independent RK4)', 'random numbers (seeded)', 'solver status and iterate (on injected faults)']
ASSUMPTIONS = ['fixed duration: exact over the part both plans cover; what lies beyond the end of the plan in force is not judged',
               'free duration: judged for updates that are not late and while more than two update times remain; between the two ends the re-gridded guess may deviate by 12 % of the extent of the remaining motion']

KINDS = [('holo', 24), ('h1d', 6), ('h3d', 4), ('dubins', 8), ('quad', 8), ('bike', 3), ('fleet', 6), ('formation', 16), ('rendezvous', 6), ('central', 4), ('squad3', 3)]
DEPLOY = [('holo', 10), ('h1d', 3), ('dubins', 4), ('quad', 5), ('formation', 6), ('fleet', 3)]
HOR = [8., 10., 12., 2.5, 6.4, 9.03, 7.]


def gen(r, i, tier):
    dep = r.random() < .35
    k = scen.pick(r, DEPLOY if dep else KINDS)
    s = scen.scenario(r, k, push=.2, solver=.2 if not dep else 0., horizon=0.)
    p = s['world']['problem']
    if not p.get('freeT') and k in scen.VARHORIZON and r.random() < .6:
        p['options']['horizon_time'] = r.choice(HOR)
    if k in ('formation', 'rendezvous') and r.random() < .35:
        p['options']['max_iter_per_update'] = r.choice([2, 3])
        s['steps'] = min(s['steps'], 8)
    if k not in ('formation', 'rendezvous', 'central') and r.random() < .4:
        # an update that comes after several knots went by
        for _ in range(r.randint(1, 2)):
            s['slices'][r.randrange(1, len(s['slices']))] = int(round(r.uniform(1., 2.8)*s['world']['problem']['options'].get('horizon_time', 10.)/10./s['Ts']))
    s['mode'] = 'deploy' if dep else 'sim'
    if dep and r.random() < .6:
        s['t0'] = r.choice([.7, 3.2, 12.34, 100.])
    if dep:
        for v in s['world']['vehicles']:
            v.get('options', {}).pop('ideal_prediction', None)
    return s


def ev(basis, c, x):
    b = _BS(np.array(basis.knots, dtype=float), np.array(c, dtype=float), basis.degree, extrapolate=True)
    return b(x)


class Warm(Observer):
    def start(self, L):
        self.prev = {}          # per vehicle: (coefficients, origin or None, duration, instant)
        self.calls = {}
        self.start_t = None
        self.dual = None
        if L.distributed():
            real = L.pr.dual_update

            def dual(*a, **kw):
                self.seen = set()
                self.before = [self.snapshot(u) for u in L.pr.updaters]
                self.dual_t = L.t
                real(*a, **kw)
                self.tprev_dual = L.t
                self.after_update(L)
            L.pr.dual_update = dual
            self.tprev_dual = None

    # ---- what ADMM carries along
    def snapshot(self, u):
        out = {}
        for key in ('x_i', 'z_i', 'z_i_p', 'l_i', 'l_i_p'):
            if key not in u.var_admm:
                continue
            val = u.var_admm[key]
            for child, q in u.q_i.items():
                for name, ind in q.items():
                    sp = child._splines_prim.get(name)
                    if sp is None:
                        continue
                    m = len(sp['basis'])
                    c = np.array(val[child.label, name], dtype=float).ravel()
                    if c.size % m == 0 and ind[0] % m == 0:
                        for q2 in range(c.size//m):
                            out[key, child.label, name, q2] = (sp['basis'], c[q2*m:(q2+1)*m])
        for key in ('x_j', 'z_ij', 'z_ij_p', 'l_ij', 'l_ij_p'):
            if key not in u.var_admm:
                continue
            val = u.var_admm[key]
            for nghb, dic in u.q_ij.items():
                for child, q in dic.items():
                    for name, ind in q.items():
                        sp = child._splines_prim.get(name)
                        if sp is None:
                            continue
                        m = len(sp['basis'])
                        try:
                            c = np.array(val[str(nghb), child.label, name], dtype=float).ravel()
                        except Exception:       # a plain dict of structures
                            c = np.array(val[str(nghb)][child.label, name], dtype=float).ravel()
                        if c.size % m == 0 and ind[0] % m == 0:
                            for q2 in range(c.size//m):
                                out[key, str(nghb), child.label, name, q2] = (sp['basis'], c[q2*m:(q2+1)*m])
        return out

    def read(self, L, v, kw=None):
        p, f = L.subproblem(v), L.father(v)
        src = f._var_result if kw is None else kw['x0']
        cs = []
        for q in range(v.n_seg):
            try:
                m = np.array(src[v.label, 'splines_seg%d' % q], dtype=float)
            except Exception:
                m = np.array(f._var_struct(kw['x0'])[v.label, 'splines_seg%d' % q], dtype=float)
            cs.append(m.reshape(len(v.basis), -1) if m.ndim == 2 and m.shape[0] == len(v.basis) else m.reshape(-1, len(v.basis)).T)
        return cs[0]

    def before_solve(self, L, solver, kw):
        R = L.R
        idx = L.solvers.index(solver)
        vs = [L.vs[idx]] if L.distributed() else L.vs
        if self.start_t is None:
            self.start_t = L.t
        for v in vs:
            p, f = L.subproblem(v), L.father(v)
            g = self.read(L, v, kw)
            d = L.w['vehicles'][L.vs.index(v)]
            free = L.w['problem'].get('freeT')
            if free:
                T = float(np.ravel(kw['x0'][p.label, 'T'])[0])
                self.judge_free(L, v, d, g, T)
            else:
                T = float(np.ravel(kw['p'][p.label, 'T'])[0])
                tau = float(np.ravel(kw['p'][p.label, 't'])[0])
                self.judge_fixed(L, v, d, g, T, tau)
        if L.distributed():
            self.judge_admm(L, idx, T, tau)

    def judge_fixed(self, L, v, d, g, T, tau):
        R = L.R
        Tk = T/v.knot_intervals
        R.check(-1e-9 <= tau <= Tk*(1 + 1e-5) - 1e-6 or abs(L.t - self.start_t) < 1e-9, 'time-in-interval',
                lambda: 't=%.4f: the plan is said to have begun %.6f ago, a knot interval lasts %.6f' % (L.t, tau, Tk))
        o = L.t - tau
        n = (o - self.start_t)/Tk
        R.check(abs(n - round(n)) < 1e-4, 'origin-off-knot', lambda: 't=%.4f: the plan begins %.6f after the start, no multiple of the knot interval %.6f' % (L.t, o - self.start_t, Tk))
        key = str(v)
        if key in self.prev:
            g0, o0 = self.prev[key]
            passed = int(round((o - o0)/Tk))
            if passed < v.knot_intervals:
                x = np.linspace(L.t, o0 + T, 23)[:-1]
                a, b = ev(v.basis, g0, (x - o0)/T), ev(v.basis, g, np.minimum(1., (x - o)/T))
                sc = max(1., np.abs(g0).max())
                e = np.abs(a - b).max()
                R.check(e <= 2e-5*sc, 'guess-not-remaining-plan', lambda: '%s t=%.4f (%d knots passed): initial guess deviates by %.5f from what is left of the plan' % (d['type'], L.t, passed, e))
                R.state(d['type'], L.w['problem']['kind'], min(passed, 4), self.start_t != 0)
                R.probe('compared')
                R.probe('knots_passed_%d' % min(passed, 3))
                R.reached = True
        self.origin = o

    def judge_free(self, L, v, d, g, T):
        R = L.R
        key = str(v)
        if key not in self.prev:
            return
        g0, (T0, t0) = self.prev[key]
        dt = L.t - t0
        if dt <= 1e-9:
            return
        if dt > L.Tu + 1e-9:
            R.probe('late')
            return
        if T0 < 2*dt + 1e-9 or T0 < 2*L.Tu + 1e-9:
            R.probe('nearly_there')
            return
        R.check(abs(T - (T0 - dt)) < 1e-6, 'guess-duration', lambda: '%s t=%.4f: %.4f s of the plan were left, the guess says %.4f' % (d['type'], L.t, T0 - dt, T))
        x = np.linspace(0., 1., 21)
        a, b = ev(v.basis, g0, (dt + x*(T0-dt))/T0), ev(v.basis, g, x)
        sc = max(1., np.abs(g0).max())
        R.check(np.abs(a[0]-b[0]).max() <= 1e-5*sc and np.abs(a[-1]-b[-1]).max() <= 1e-5*sc, 'guess-not-remaining-plan',
                lambda: '%s t=%.4f: the guess runs from %s to %s, what is left of the plan from %s to %s' % (d['type'], L.t, np.round(b[0], 5), np.round(b[-1], 5), np.round(a[0], 5), np.round(a[-1], 5)))
        ext = a.max(axis=0) - a.min(axis=0)
        dev = np.abs(a-b).max(axis=0)
        self.worst = max(getattr(self, 'worst', 0.), float((dev/np.maximum(ext, .1)).max()))
        R.check((dev <= .12*np.maximum(ext, .1)).all(), 'guess-shape', lambda: '%s t=%.4f: the guess deviates by %s from what is left of the plan' % (d['type'], L.t, np.round(dev, 4)))
        R.state(d['type'], 'free', self.start_t != 0)
        R.probe('compared')
        R.probe('compared_free')
        R.reached = True

    def judge_admm(self, L, idx, T, tau):
        R = L.R
        if idx in self.seen:
            return
        self.seen.add(idx)
        if self.tprev_dual is None:
            return
        v = L.vs[idx]
        Tk = T/v.knot_intervals
        n = int(round((self.tprev_dual - self.start_t)/Tk*1e6)/1e6), int(round((L.t - self.start_t)/Tk*1e6)/1e6)
        passed = n[1] - n[0]
        if passed >= v.knot_intervals:
            return
        u = L.pr.updaters[idx]
        now = self.snapshot(u)
        for key, (basis, c0) in self.before[idx].items():
            if key not in now:
                continue
            x = np.linspace(passed*Tk, T, 12)[:-1]
            a, b = ev(basis, c0, x/T), ev(basis, now[key][1], (x - passed*Tk)/T)
            sc = max(1., np.abs(c0).max())
            e = np.abs(a-b).max()
            R.check(e <= 1e-5*sc, 'agent-not-shifted', lambda: 't=%.4f agent %d: %s deviates by %.5f after %d knots went by' % (L.t, idx, key, e, passed))
        R.probe('agents_compared')

    def after_update(self, L):
        for v in L.vs:
            if L.w['problem'].get('freeT'):
                self.prev[str(v)] = (self.read(L, v), (L.horizon(v), L.t))
            else:
                self.prev[str(v)] = (self.read(L, v), self.origin)


def run(spec, R):
    o = Warm()
    if spec['mode'] == 'sim':
        Loop(spec, R, [o]).run()
    else:
        n0 = len(R.violations)
        c01.deploy(spec, R, [o])
        # how the plans start is C01's business
        R.violations = R.violations[:n0] + [v for v in R.violations[n0:] if not v['cls'].startswith('plan-start')]
    if hasattr(o, 'worst'):
        R.probe('worst_%02d' % int(100*o.worst))
