"""C14: the controller exported to C++ does what the Python controller does."""
from .. import build, scen, gen as G, export as X
from ..boot import *
from ..core import Stop
from scipy.interpolate import BSpline as _BS
import math

RUNS = {'quick': 40, 'thorough': 500}
CPU = 200
MIN_S = 90
SHRINK_LISTS = ('events',)
SHRINK_INTS = {}
RULE = 'non-trivial: at least two plans of the exported controller were compared; distinct: different event log'
STATE_MEASURE = 'prediction mode x samples per update x requested length x what happened to the update (on time, late by n knots, retried, recovered, restarted)'
REAL = ['omgtools/export (generator and C++ templates), compiled with the exported Makefile', 'generated NLP code', 'CasADi+IPOPT in both', 'Python problem, parameters, bounds, transformations']
STUB = ['clock, measurements, obstacles and calls (simulated, over the program\'s standard input)']
ASSUMPTIONS = ['fixed duration, one Holonomic vehicle, ten knot intervals: all the exporter supports',
               'the trajectory asked for is long enough for the delay that is reported, as the interface requires']

TIM = [(.01, 10), (.01, 10), (.02, 5), (.05, 4), (.1, 3), (.01, 29), (.07, 4)]


def gen(r, i, tier):
    if r.random() < .35:
        from . import c14_agents
        return c14_agents.gen(r, i, tier)
    w = G.p2p2d(r, 'Holonomic', freeT=False, n_obs=r.choice([0, 0, 1, 2, 3]))
    w['vehicles'][0].setdefault('options', {}).pop('syslimit', None)
    w['problem']['options']['horizon_time'] = T = r.choice([8., 10., 12., 6.4, 9.03, 7., 10.])
    if r.random() < .2:
        w['problem']['options']['hard_term_con'] = True
    for o in w['obstacles']:
        if r.random() < .15:
            o['options'] = {'spline_traj': True, 'spline_params': {'knots': [0, 0, 0, 1, 1, 1], 'degree': 2, 'coeffs': [list(o['pos'])]*3}}
            o.pop('vel', None)
    if w['obstacles'] and r.random() < .15:
        w['obstacles'][0].setdefault('options', {})['avoid'] = False
    s = {'world': w, 'events': []}
    s['opt'] = {'namespace': r.choice(['omg', 'omg', 'agent_1', 'ctl']), 'dir': r.choice(['export', 'my.export', 'a/b.c/export']), 'slash': r.random() < .5}
    s['sessions'] = []
    knot = T/10.
    for _ in range(r.choice([1, 1, 2])):
        Ts, n = r.choice(TIM)
        mode = r.choice(['integrate', 'integrate', 'integrate', 'ideal', 'provide'])
        N = int(T/Ts + 1e-6)
        L = r.choice([0, 0, max(1, n//2), min(N, n + int(2.6*knot/Ts)), min(N, 3*n), N])
        s['sessions'].append([Ts, round(n*Ts, 6), mode, L])
    ev = s['events']
    for k in range(len(s['sessions'])):
        Ts, Tu, mode, L = s['sessions'][k]
        n = int(round(Tu/Ts))
        room = max(0, max(L, n) - n)
        ev.append({'kind': 'start', 's': k})
        for q in range(r.randint(6, 12)):
            p = r.random()
            e = {'kind': 'update', 'shift': 0}
            if room and p < .35:
                e['shift'] = min(room, r.choice([1, 2, n, int(knot/Ts), int(2.2*knot/Ts)]))
            if r.random() < .4 and mode != 'ideal':
                e['dx'] = [round(r.uniform(-.03, .03), 4) for _ in range(2)]
            if r.random() < .12:
                e['target'] = [round(r.uniform(-.3, .3), 3) for _ in range(2)]
            if r.random() < .15 and w['obstacles']:
                e['avoid'] = [r.randrange(len(w['obstacles'])), r.random() < .4]
            if r.random() < .15 and w['obstacles']:
                e['turn'] = [r.randrange(len(w['obstacles'])), [round(r.uniform(-.15, .15), 3) for _ in range(2)], [round(r.uniform(-.02, .02), 3) for _ in range(2)]]
            if q and r.random() < .12:
                e['impossible'] = True          # measured far outside the room, target just as far
                ev.append(e)
                for _ in range(r.choice([0, 0, 1])):
                    ev.append({'kind': 'update', 'shift': 0, 'impossible': True})
                e = {'kind': 'update', 'shift': min(r.choice([0, 0, 1, n]), max(0, room - e['shift']))}
                if r.random() < .4:
                    ev.append({'kind': 'recover'})
            ev.append(e)
            if r.random() < .06:
                ev.append({'kind': 'rest'})     # stop: reset() + resetTime(), a new task
    return s


def straight(a, b, m):
    return np.array([np.linspace(a[q], b[q], m) for q in (0, 1)])


class Ctl:
    """what the exported controller has to do, from its interface's text"""

    def __init__(self, R, spec, pr, v, env, ex):
        self.R, self.spec, self.pr, self.v, self.env, self.ex = R, spec, pr, v, env, ex
        self.f = pr.father
        self.T = float(pr.options['horizon_time'])
        self.knot = self.T/10.
        self.obs = [o for o in env.obstacles]
        self.od = [dict(pos=list(o['pos']), vel=list(o.get('vel', [0., 0.])), acc=[0., 0.], avoid=True) for o in spec['world']['obstacles']]
        self.xT0 = list(spec['world']['vehicles'][0]['xT'])
        # what is asserted about the solution uses the problem's own functions
        pd = self.f.problem_description
        import casadi as cas
        self.fg = cas.Function('fg', [pd['var'], pd['par']], [pd['obj'], pd['con']])
        self.nlp = pr.problem
        self.compared = 0

    def dead(self, what):
        self.R.violate('exported-dies', '%s: the exported controller ended: %s' % (what, self.ex.epitaph()))
        raise Stop()

    def ask(self, *a):
        out = self.ex.ask(*a)
        if out is None:
            self.dead(a[0])
        return out

    # ------------------------------------------------------------ sessions
    def begin(self, Ts, Tu, mode, L):
        self.Ts, self.Tu, self.mode = Ts, Tu, mode
        self.n = int(round(Tu/Ts))
        out = self.ask('init', Tu, Ts, self.T, L, int(mode == 'ideal'), int(mode == 'provide'))
        self.L = L or self.n
        self.R.check(int(out['length'][0]) == self.L, 'length', lambda: 'an update takes %d samples of %g s, the exported controller plans %d' % (self.n, Ts, out['length'][0]))
        self.fresh()
        self.var = None
        self.x = list(self.spec['world']['vehicles'][0]['x0'])
        self.xT = list(self.xT0)

    def fresh(self):
        self.k = 0              # samples since the start of the session's clock
        self.plan = None
        self.kprev = 0          # sample of the last transformation of the guess
        self.recover = False

    def interval(self, k):
        return int(math.floor(k*self.Ts/self.knot + 1e-7))

    def since_knot(self, k):
        return max(0., k*self.Ts - self.interval(k)*self.knot)

    def spline(self, c, t, d=0):
        b = self.v.basis
        out = []
        for q in (0, 1):
            s = _BS(np.array(b.knots, dtype=float), np.array(c[q], dtype=float), b.degree)
            if d:
                s = s.derivative(d)
            out.append(s(np.minimum(np.atleast_1d(t)/self.T, 1.))/self.T**d)
        return np.array(out)

    # -------------------------------------------------------------- update
    def predicted(self, x, shift):
        """state and input the plan has to start from"""
        if self.plan is None:
            return np.array(x), np.zeros(2)
        c, tau = self.plan
        last = max(self.L, self.n)
        ks = np.minimum(np.arange(self.n+1) + shift, last)
        u = self.spline(c, tau + ks*self.Ts, 1)
        uT = u[:, -1]
        if self.mode == 'provide':
            return np.array(x), uT
        if self.mode == 'ideal':
            return self.spline(c, tau + ks[-1:]*self.Ts)[:, 0], uT
        return np.array(x) + self.Ts*(u[:, 1:] + u[:, :-1]).sum(1)/2., uT

    def update(self, e):
        R, v, n = self.R, self.v, self.n
        shift = int(e.get('shift', 0))
        first = self.k == 0
        if first:
            shift = 0
        if 'target' in e:
            self.xT = [self.xT0[q] + e['target'][q] for q in (0, 1)]
        if 'avoid' in e and e['avoid'][0] < len(self.od):
            self.od[e['avoid'][0]]['avoid'] = bool(e['avoid'][1])
            R.fault('obstacle_switched')
        if 'turn' in e and e['turn'][0] < len(self.od):
            o, tm = self.od[e['turn'][0]], self.wall(self.k) - self.Tu
            now = [o['pos'][q] + o['vel'][q]*tm + .5*o['acc'][q]*tm**2 for q in (0, 1)]
            vel, acc = e['turn'][1:]
            o['pos'] = [now[q] - (vel[q] - acc[q]*tm)*tm - .5*acc[q]*tm**2 for q in (0, 1)]
            o['vel'] = [vel[q] - acc[q]*tm for q in (0, 1)]
            o['acc'] = list(acc)
            R.fault('obstacle_turns')
        # the world: the measurement is taken when the update starts, Tu before the new plan
        k = self.k + shift
        total = k - self.kplan - n if self.plan is not None else 0
        x = list(self.x)
        if self.plan is not None:
            c, tau = self.plan
            x = list(self.spline(c, tau + min(total, max(self.L, n))*self.Ts)[:, 0])
        if 'dx' in e:
            x = [x[q] + e['dx'][q] for q in (0, 1)]
            R.fault('measurement_off')
        if e.get('impossible'):
            x = [x[0] + 40., x[1]]
            R.fault('unsolvable')
        if shift:
            R.fault('late_update')
        obs = []
        for o, d in zip(self.obs, self.od):
            tm = self.wall(k) - self.Tu
            d['now'] = [d['pos'][q] + d['vel'][q]*tm + .5*d['acc'][q]*tm**2 for q in (0, 1)]
            d['vnow'] = [d['vel'][q] + d['acc'][q]*tm for q in (0, 1)]
            cp, rad = o.shape.get_checkpoints()
            cp = [float(z) for p in cp for z in p]
            tc = []
            if o.options['spline_traj']:
                tc = [float(z) for z in np.array(o.options['spline_params']['coeffs']).T.ravel()]
            obs += d['now'] + d['vnow'] + d['acc'] + [len(cp)] + cp + [len(rad)] + [float(z) for z in rad] + [len(tc)] + tc + [int(d['avoid'])]
        plain = int(shift == 0 and bool(e.get('plain', self.compared % 2)))
        out = self.ask('update', plain, shift, self.L, *(list(map(float, x)) + list(map(float, self.xT)) + [len(self.obs)] + obs))
        ok = bool(out['ok'][0])
        status = out.get('status', '')
        R.log('update', k, shift, ok, status, out['coeffs'])
        L = self.L
        st, it = out['states'].reshape(-1, 2), out['inputs'].reshape(-1, 2)
        # ---- what it decided from
        state0, input0 = self.predicted(x, total)
        t = k*self.Ts
        knots = self.interval(k) - self.interval(self.kprev)
        R.state(self.mode, n, L == n, min(knots, 3), 'late' if shift else '', 'retry' if self.kprev == k and not first else '', 'recover' if self.recover else '', ok)
        self.parameters(out['par'], k, state0, input0, first)
        self.bounds(out['lbg'], out['ubg'])
        self.guess(out['x0'], knots, first, state0)
        self.kprev = k
        self.recover = False
        # ---- what it answers
        R.check(ok == (status == 'Solve_Succeeded'), 'answer', lambda: 'the solver says %s, update() returns %r' % (status, ok))
        if not ok:
            R.check(bool((st == 777.).all() and (it == 777.).all()), 'answer', 'a failed update wrote to the caller\'s trajectories')
            R.probe('failed_updates')
            if not e.get('impossible'):
                self.nlp(x0=self.x0, p=self.par, lbg=self.lb, ubg=self.ub)
                stats = self.nlp.stats()
                R.check(stats['return_status'] != 'Solve_Succeeded' or stats['iter_count'] > 120, 'solution',
                        lambda: 'the exported controller fails (%s) on a problem the Python controller solves in %d iterations' % (status, stats['iter_count']))
            self.k = k
            return
        R.check(bool((st[L:] == 777.).all() and (it[L:] == 777.).all()), 'overrun', lambda: 'an update wrote more than the %d samples asked for' % L)
        c = out['coeffs'].reshape(2, -1)
        tau = self.since_knot(k)
        ts = tau + np.arange(L)*self.Ts
        es = float(np.max(np.abs(st[:L].T - self.spline(c, ts))))
        ei = float(np.max(np.abs(it[:L].T - self.spline(c, ts, 1))))
        R.check(es < 1e-7 and ei < 1e-7, 'samples', lambda: 'the trajectories handed out deviate from the plan by %.3g (state) and %.3g (input)' % (es, ei), k=k)
        self.solution(out, k)
        self.compared += 1
        if self.compared >= 2:
            R.reached = True
        self.plan, self.kplan = (c, tau), k
        self.var = out['var']
        self.astray = False
        self.k = k + n

    def wall(self, k):
        return self.t0 + k*self.Ts

    # ------------------------------------------------- against the problem
    def parameters(self, par, k, state0, input0, first):
        R, v, f = self.R, self.v, self.f
        v.prediction['state'], v.prediction['input'] = np.array(state0), np.array(input0)
        v.set_terminal_conditions(np.array(self.xT))
        for o, d in zip(self.obs, self.od):
            p, q, a = np.array(d['now']), np.array(d['vnow']), np.array(d['acc'])
            o.signals['position'] = np.c_[p + self.Tu*q + .5*self.Tu**2*a]
            o.signals['velocity'] = np.c_[q + self.Tu*a]
            o.signals['acceleration'] = np.c_[a]
        self.pr.start_time = 0.
        exp = np.array(f.set_parameters(k*self.Ts).cat).ravel()
        lab = f._par_struct.labels()
        bad = [(lab[q], float(par[q]), float(exp[q])) for q in range(exp.size) if abs(par[q]-exp[q]) > 2e-6*(1+abs(exp[q]))] if par.size == exp.size else [('size', par.size, exp.size)]
        R.check(not bad, 'parameters', lambda: 'at %.6g s the exported controller plans from %s, it should be %s: %s' % (
            k*self.Ts, bad[0][1], bad[0][2], [b[0] for b in bad[:4]]), k=k)
        self.par = exp

    def bounds(self, lb, ub):
        R, f = self.R, self.f
        L, U = np.array(f._lb.cat).ravel(), np.array(f._ub.cat).ravel()
        L, U = L.copy(), U.copy()
        off = set()
        for o, d in zip(self.obs, self.od):
            if not d['avoid']:
                off.add(o.label)
        at = 0
        for label, child in f.children.items():
            for name, con in child._constraints.items():
                m = con[0].shape[0]
                if label in off:
                    L[at:at+m], U[at:at+m] = -np.inf, np.inf
                at += m
        ok = lb.size == L.size and bool(np.all((lb == L) | (np.abs(lb - L) < 1e-9))) and bool(np.all((ub == U) | (np.abs(ub - U) < 1e-9)))
        R.check(ok, 'bounds', lambda: 'the exported controller bounds other constraints than the problem (obstacles not to avoid: %s)' % sorted(off))
        self.lb, self.ub = L, U

    def guess(self, x0, knots, first, state0):
        R, f, v = self.R, self.f, self.v
        m = len(v.basis)
        if first or self.recover:
            got = np.array(f._var_struct(x0)[v.label, 'splines_seg0']).T
            exp = straight(state0, self.xT, m)
            err = float(np.max(np.abs(got - exp)))
            R.check(err < 1e-6, 'guess', lambda: 'started anew, the search does not begin on the straight line to the target (%.3g off)' % err)
            self.var = np.array(x0)
            self.astray = True
        else:
            # every variable is either kept or shifted along with the plan, which is shifted
            old, new = f._var_struct(self.var), f._var_struct(x0)
            bad = []
            for label, child in f.children.items():
                for name in child._variables:
                    o, g = np.array(old[label, name]), np.array(new[label, name])
                    sh = o
                    T = f._primal_init[label, name] if name in child._splines_prim and child._splines_prim[name]['init'] is not None else None
                    for _ in range(knots if T is not None else 0):
                        sh = np.array(T).dot(sh)
                    tol = 1e-6*(1+np.max(np.abs(o)))
                    err = float(np.max(np.abs(g-sh)))
                    if err > tol and (label == v.label or float(np.max(np.abs(g-o))) > tol):
                        bad.append((label, name, err))
            R.check(not bad, 'guess', lambda: 'the search begins %.3g away from the previous solution shifted by %d knot(s): %s' % (bad[0][2], knots, bad[0][:2]))
            self.var = np.array(x0)
            if self.plan is not None and knots <= 3 and not self.astray:
                # and that guess is the previous plan, in its place
                c = np.array(f._var_struct(x0)[v.label, 'splines_seg0']).T
                cp, tau = self.plan
                moved = self.interval(self.know) - self.interval(self.kplan)
                s = np.linspace(0., self.T - moved*self.knot - 1e-6, 40)
                e2 = float(np.max(np.abs(self.spline(c, s) - self.spline(cp, s + moved*self.knot))))
                R.check(e2 < 1e-5, 'guess', lambda: 'the search begins %.3g m away from what is left of the plan' % e2)
        self.x0 = np.array(x0)

    def solution(self, out, k):
        R = self.R
        obj, con = self.fg(out['var'], self.par)
        con = np.array(con).ravel()
        viol = float(max(np.max(self.lb - con), np.max(con - self.ub), 0.))
        R.check(viol < 2e-4, 'solution', lambda: 'the exported plan violates the problem\'s constraints by %.3g' % viol, k=k)
        # the same problem, solved by the Python controller from the same guess
        res = self.nlp(x0=self.x0, p=self.par, lbg=self.lb, ubg=self.ub)
        if self.nlp.stats()['return_status'] != 'Solve_Succeeded':
            R.probe('python_did_not_solve')
            return
        var = np.array(res['x']).ravel()
        po = float(res['f'])
        d = float(np.max(np.abs(np.array(self.f._var_struct(var)[self.v.label, 'splines_seg0']).T - out['coeffs'].reshape(2, -1))))
        R.probe('python_solved')
        if not self.obs:
            R.check(d < 2e-3 and abs(float(obj) - po) < 1e-3 + 1e-2*abs(po), 'solution', lambda: 'the exported plan deviates %.3g m from the Python plan (costs %.6g and %.6g)' % (d, float(obj), po), k=k)
        elif d > 2e-3:
            R.probe('different_optimum')
            R.check(float(obj) < 1.5*po + .5, 'solution', lambda: 'the exported plan costs %.6g, the Python plan %.6g' % (float(obj), po), k=k)


def run(spec, R):
    if 'agents' in spec:
        from . import c14_agents
        return c14_agents.run(spec, R)
    vs, env, pr = build.world(spec['world'])
    try:
        ex = X.Exported(pr, 'p2p', 'p2p', spec['opt'])
        ex.__enter__()
    except X.BuildError as e:
        R.violate('export-build', 'the exported code does not compile: %s' % str(e)[-600:])
        return
    try:
        C = Ctl(R, spec, pr, vs[0], env, ex)
        C.t0 = 0.
        for e in spec['events']:
            k = e['kind']
            if k == 'start':
                C.begin(*spec['sessions'][e['s']])
                R.fault('controller_started')
            elif not hasattr(C, 'Ts'):
                continue
            elif k == 'update':
                C.know = C.k + (int(e.get('shift', 0)) if C.k else 0)
                C.update(e)
                R.simtime += C.Tu
            elif k == 'recover':
                C.ask('recover')
                C.recover = True
                R.fault('recover')
            elif k == 'rest':
                C.ask('reset')
                C.ask('resetTime')
                if C.plan is not None:
                    c, tau = C.plan
                    C.x = list(C.spline(c, tau + C.n*C.Ts)[:, 0])
                C.t0 += C.k*C.Ts
                C.fresh()
                R.fault('reset')
            if R.violations:
                return
    finally:
        ex.close()
