"""Oracles evaluated while a closed-loop run proceeds and over its history."""
from .loop import *
from scipy.interpolate import BSpline as BS


def spec_events(L, kind, upto=None):
    return [e for e in L.spec['events'] if e['kind'] == kind and (upto is None or e['k'] <= upto)]


def clean(L, i, k=None):
    """nothing but its own plan has moved vehicle i (up to step k)"""
    d = L.w['vehicles'][i]
    o = d.get('options') or {}
    if o.get('input_disturbance') or o.get('1storder_delay'):
        return False
    return not any(e['kind'] == 'push' for e in L.spec['events'] if e['k'] <= (L.k if k is None else k))


def target_of(d):
    return np.array(d['xT'], dtype=float).ravel()


def plan_xy(L, i, v, tr):
    """positions the plan's constraints were imposed on.  Vehicles whose plan
    fixes the speed and heading sample their position from where they are;
    the optimisation placed it at the predicted position."""
    P = tr['pose'].copy()
    d = L.w['vehicles'][i]
    if d['type'] in ('Dubins', 'Bicycle', 'AGV'):
        P[:2] += (np.asarray(v.prediction['state'])[:2] - P[:2, 0]).reshape(2, 1)
    return P


class PlanOk(Observer):
    """C02: limits, room, predicted obstacles, rest at the end"""
    TOL_LIM = 5e-3
    TOL_GEO = 4e-3

    def after_update(self, L):
        R = L.R
        self.sig = [models.obstacle_now(o) if hasattr(o, 'signals') else None for o in L.env.obstacles]
        for i, v in enumerate(L.vs):
            if not L.ok(v):
                R.probe('solve_not_successful')
                continue
            if L.plan_exhausted(v):
                R.probe('plan_end')
                continue
            self.judge(L, i, v)
        if not L.distributed() and L.ok() and len(L.vs) > 1 and L.w['problem']['options'].get('inter_vehicle_avoidance'):
            self.apart(L)

    def judge(self, L, i, v):
        R = L.R
        d = L.w['vehicles'][i]
        tr = v.trajectories
        n = tr['state'].shape[1]
        R.probe('plan_judged')
        R.check(all(np.isfinite(tr[q]).all() for q in ('state', 'input', 'pose')), 'plan-not-finite', 'plan contains non-finite values')
        w = models.limit_violation(d, tr)
        R.check(w[0] <= self.TOL_LIM*(1 if d['type'] != 'Quadrotor' else 2), 'plan-limit',
                lambda: 'step %d t=%.3f %s plan: %s' % (L.k, L.t, d['type'], w[1]))
        P = plan_xy(L, i, v, tr)
        idx = sorted(set(range(0, n, max(1, n//60))) | {n-1})
        room = L.w['room']
        for s, X in models.parts(d, P):
            th = self.theta(d, X)
            if (d.get('options') or {}).get('room_constraints', True):
                worst = max(((models.room_violation(room, s, X[:, k], th[k]), k) for k in idx))
                R.check(worst[0] <= self.TOL_GEO, 'plan-room', lambda: 'step %d t=%.3f %s: plan leaves the room by %.4f at sample %d' % (
                    L.k, L.t, d['type'], worst[0], worst[1]))
            for q, (od, sig) in enumerate(zip(L.w.get('obstacles', []), self.sig)):
                if (od.get('options') or {}).get('avoid', True) is False:
                    continue
                worst = (9e9, 0)
                for k in idx:
                    pos, oth = models.predicted_obstacle(sig, k*L.Ts)
                    worst = min(worst, (models.clearance(s, X[:, k], th[k], od['shape'], pos, oth), k))
                R.check(worst[0] >= -self.TOL_GEO, 'plan-obstacle',
                        lambda: 'step %d t=%.3f %s: plan runs %.4f into predicted obstacle %d, %d samples ahead' % (
                            L.k, L.t, d['type'], -worst[0], q, worst[1]))
                if worst[0] < .05:
                    R.probe('plan_close_to_obstacle')
        self.rest(L, i, v, d, tr)

    def theta(self, d, X):
        return X[2] if X.shape[0] >= 3 and d['type'] in ('HolonomicOrient', 'Dubins', 'Bicycle', 'AGV', 'Trailer') else np.zeros(X.shape[1])

    def rest(self, L, i, v, d, tr):
        """it comes to rest at the end, and a plan of free duration ends at the target"""
        R = L.R
        T = L.horizon(v)
        p = L.w['problem']
        slack = 1.5*L.Ts*4. + 1e-3      # the samples stop at most one before the end
        if v.n_seg == 1 and not p['options'].get('no_term_con_der'):
            c = [BS(q.basis.knots, np.asarray(q.coeffs, dtype=float).ravel(), q.basis.degree) for q in L.father(v).get_variables(v, 'splines_seg0')]
            if d['type'] in ('Holonomic', 'Holonomic1D', 'Holonomic3D', 'HolonomicOrient', 'Quadrotor', 'SimpleQuadrotor3D'):
                sp = max(abs(float(q.derivative()(1.))) for q in c)/T
            elif d['type'] == 'Dubins':
                sp = max(abs(float(c[0](1.)))/(1. if p.get('freeT') else 1.), abs(float(c[1].derivative()(1.)))/T)
            else:
                sp = 0.
            R.check(sp <= 1e-3, 'plan-rest', lambda: 'step %d t=%.3f %s: plan ends with speed %.4f' % (L.k, L.t, d['type'], sp))
            if (p.get('freeT') or p['options'].get('hard_term_con')) and d['type'] in ('Holonomic', 'Holonomic1D', 'Holonomic3D', 'Quadrotor', 'SimpleQuadrotor3D'):
                e = max(abs(float(q(1.)) - x) for q, x in zip(c, target_of(d)))
                R.check(e <= 1e-3, 'plan-target', lambda: 'step %d t=%.3f %s: plan ends %.4f away from the target' % (L.k, L.t, d['type'], e))
        if p.get('freeT') or p['options'].get('hard_term_con'):
            P = plan_xy(L, i, v, tr)
            xT = target_of(d)
            m = {'Holonomic1D': 1, 'Holonomic3D': 3, 'SimpleQuadrotor3D': 3, 'Quadrotor3D': 3, 'Trailer': 0}.get(d['type'], 2)
            e = np.abs(P[:m, -1] - xT[:m]).max() if m else 0.
            R.check(e <= slack*L.Ts*2 + 3e-3, 'plan-target', lambda: 'step %d t=%.3f %s: plan ends %.4f away from the target' % (L.k, L.t, d['type'], e))

    def apart(self, L):
        R = L.R
        Ps = [v.trajectories['pose'] for v in L.vs]
        n = min(P.shape[1] for P in Ps)
        for a in range(len(Ps)):
            for b in range(a):
                da, db = L.w['vehicles'][a], L.w['vehicles'][b]
                worst = min((models.clearance(models.default_shape(da), Ps[a][:, k], 0., models.default_shape(db), Ps[b][:, k], 0.), k)
                            for k in range(0, n, max(1, n//60)))
                R.check(worst[0] >= -self.TOL_GEO, 'plan-vehicles', lambda: 'step %d t=%.3f: plans of vehicles %d and %d overlap by %.4f, %d samples ahead' % (
                    L.k, L.t, a, b, -worst[0], worst[1]))


class ExecutedOk(Observer):
    """C03: what was driven in a step, judged against where things really were"""
    TOL_GEO = 5e-3
    TOL_LIM = 8e-3

    def start(self, L):
        self.n = 1

    def after_update(self, L):
        self.sig = [models.obstacle_now(o) if hasattr(o, 'signals') else None for o in L.env.obstacles]
        self.good = [L.ok(v) and not L.plan_exhausted(v) for v in L.vs]

    def after_simulate(self, L):
        R = L.R
        n1 = L.vs[0].signals['state'].shape[1]
        n0, self.n = self.n, n1
        if n0 == 0 or n1 <= n0:
            return
        rng = range(n0, n1)
        for i, v in enumerate(L.vs):
            d = L.w['vehicles'][i]
            if not self.good[i] or not clean(L, i):
                R.probe('step_not_judged')
                continue
            R.probe('step_judged')
            S = v.signals
            seg = {q: S[q][:, n0:n1] for q in S if q != 'time'}
            w = models.limit_violation(d, seg)
            R.check(w[0] <= self.TOL_LIM*(1 if d['type'] != 'Quadrotor' else 2), 'driven-limit', lambda: 'step %d %s drove: %s' % (L.k, d['type'], w[1]))
            X = S['pose'][:, n0:n1]
            th = PlanOk.theta(self, d, X)
            idx = sorted(set(range(0, n1-n0, max(1, (n1-n0)//6))) | {n1-n0-1})
            sh = models.default_shape(d)
            worst = max(models.room_violation(L.w['room'], sh, X[:, k], th[k]) for k in idx)
            R.check(worst <= self.TOL_GEO, 'driven-room', lambda: 'step %d %s: out of the room by %.4f' % (L.k, d['type'], worst))
            for q, (od, o) in enumerate(zip(L.w.get('obstacles', []), L.env.obstacles)):
                if (od.get('options') or {}).get('avoid', True) is False:
                    continue
                if L.distributed():
                    o = L.subproblem(v).environment.obstacles[q]
                s0 = self.sig[q]
                for k in idx:
                    now = models.obstacle_now(o, n0+k)
                    pos, oth = models.predicted_obstacle(s0, (k+1)*L.Ts)
                    if np.abs(pos - now['position']).max() > 2e-3:
                        R.probe('obstacle_not_as_predicted')
                        break
                    c = models.clearance(sh, X[:, k], th[k], od['shape'], now['position'], float(np.ravel(now.get('orientation', 0.))[0]))
                    R.check(c >= -self.TOL_GEO, 'driven-collision', lambda: 'step %d %s: inside obstacle %d by %.4f at t=%.3f' % (
                        L.k, d['type'], q, -c, L.t+(k+1)*L.Ts))
                    if c < .05:
                        R.probe('close_to_obstacle')
                        R.state(d['type'], od['shape']['k'], sh['k'], bool(od.get('vel')), L.dt > L.Tu + 1e-9)
        if len(L.vs) > 1 and not L.distributed() and all(self.good) and all(clean(L, i) for i in range(len(L.vs))) \
                and L.w['problem']['options'].get('inter_vehicle_avoidance'):
            for a in range(len(L.vs)):
                for b in range(a):
                    sa, sb = (models.default_shape(L.w['vehicles'][q]) for q in (a, b))
                    for k in rng:
                        c = models.clearance(sa, L.vs[a].signals['pose'][:, k], 0., sb, L.vs[b].signals['pose'][:, k], 0.)
                        R.check(c >= -self.TOL_GEO, 'vehicles-collide', lambda: 'step %d: vehicles %d and %d overlap by %.4f' % (L.k, a, b, -c))
                        if c < .05:
                            R.probe('vehicles_close')


class History(Observer):
    """C06: one clock; equally long, evenly sampled, append-only records; the
    log says which plan was in force at every sample"""

    def start(self, L):
        self.t0 = 0.
        self.n = 0
        self.past = {}
        self.plans = []

    def after_update(self, L):
        self.cur = [{q: v.trajectories[q].copy() for q in ('state', 'input', 'time')} for v in L.vs]
        for i, v in enumerate(L.vs):
            tr = v.trajectories
            T = tr['time'].ravel()
            if not L.plan_exhausted(v):
                L.R.check(abs(T[0] - L.t) < 1e-6, 'plan-clock', lambda: 'step %d: at %.6f the plan in force says it starts at %.6f' % (L.k, L.t, T[0]))
                if len(T) > 1:
                    L.R.check(np.abs(np.diff(T) - L.Ts).max() < 1e-6, 'plan-clock', lambda: 'step %d: plan not evenly sampled' % L.k)
            L.R.check(all(tr[q].shape[1] == T.size for q in tr), 'plan-lengths', lambda: 'step %d: plan signals differ in length %s' % (
                L.k, {q: tr[q].shape for q in tr}))

    def after_simulate(self, L):
        R = L.R
        vs = L.vs
        n = vs[0].signals['time'].shape[1]
        R.probe('history_step')
        m = int(round(L.dt/L.Ts))
        grown = n - (self.n or 1)
        cut = [L.prevented(v) for v in vs] if hasattr(L, 'prevented') else None
        avail = min(self.cur[i]['state'].shape[1] - 1 for i in range(len(vs)))
        if any(L.plan_exhausted(v) for v in vs):
            R.check(grown == 0, 'history-length', lambda: 'step %d: no plan left, yet %d samples were recorded' % (L.k, grown))
        elif avail >= m:
            R.check(grown == m, 'history-length', lambda: 'step %d: an update time of %d samples recorded %d' % (L.k, m, grown))
        else:
            R.check(abs(grown - avail) <= 1, 'history-length', lambda: 'step %d: plan of %d samples, %d recorded' % (L.k, avail, grown))
        for i, v in enumerate(vs):
            S = v.signals
            ln = {q: S[q].shape[1] for q in S}
            R.check(len(set(ln.values())) == 1 and ln['time'] == n, 'history-shape', lambda: 'step %d vehicle %d: records differ in length: %s' % (L.k, i, ln))
            T = S['time'].ravel()
            R.check(np.abs(T - np.arange(T.size)*L.Ts - self.t0).max() < 1e-6, 'history-time', lambda: 'step %d vehicle %d: recorded time axis %s' % (
                L.k, i, np.round(T[-4:], 5)))
            st = v.traj_storage
            R.check(all(len(st[q]) == n-1 for q in st), 'history-log', lambda: 'step %d vehicle %d: %s logged plans for %d samples' % (
                L.k, i, {q: len(st[q]) for q in st}, n-1))
            if len(st['state']) == n-1 and grown > 0:
                for k in {n-2, n-1-grown}:
                    ok = st['state'][k].shape == self.cur[i]['state'].shape and np.array_equal(st['state'][k], self.cur[i]['state']) and \
                        np.array_equal(st['input'][k], self.cur[i]['input'])
                    R.check(ok, 'history-log', lambda: 'step %d vehicle %d: plan logged for sample %d is not the one in force' % (L.k, i, k))
            # append only
            for q in ('state', 'input', 'pose', 'time'):
                old = self.past.get((i, q))
                if old is not None:
                    # the newest sample may be overruled by a push
                    same = np.array_equal(S[q][:, :old.shape[1]-1], old[:, :-1])
                    R.check(same, 'history-rewritten', lambda: 'step %d vehicle %d: recorded %s changed after the fact' % (L.k, i, q))
                self.past[(i, q)] = S[q].copy()
        envs = [L.env] if not L.distributed() else [p.environment for p in L.pr.problems]
        for e in envs:
            for q, o in enumerate(e.obstacles):
                R.check(o.signals['position'].shape[1] == n, 'obstacle-clock', lambda: 'step %d: obstacle %d has %d samples, vehicles have %d' % (
                    L.k, q, o.signals['position'].shape[1], n))
                To = o.signals['time'].ravel()
                R.check(np.abs(To - np.arange(To.size)*L.Ts).max() < 1e-6, 'obstacle-clock', lambda: 'step %d: obstacle %d time axis %s' % (
                    L.k, q, np.round(To[-4:], 5)))
        if self.n:
            R.state('grow', m, grown == m, L.w['problem']['kind'], L.w['problem'].get('freeT', False))
        R.check(abs(L.t - (self.n and (self.n-1)*L.Ts or 0.)) < 1e-6, 'clock', lambda: 'step %d started at %.6f with %d samples recorded' % (L.k, L.t, self.n))
        self.n = n

    def end(self, L):
        R = L.R
        if L.stopped:
            n = L.vs[0].signals['time'].shape[1]
            R.check(len(L.sim.time) == n, 'clock', lambda: 'the run ended with %d clock ticks for %d samples' % (len(L.sim.time), n))
            tt = np.asarray(L.sim.time)
            R.check(np.abs(np.diff(tt) - L.Ts).max() < 1e-6 if len(tt) > 1 else True, 'clock', 'clock ticks are not evenly spaced')
            R.probe('run_to_the_end')


class Integral(Observer):
    """C08: recorded states are the recorded inputs, integrated"""

    def start(self, L):
        self.n = 1
        self.odes = [models.ode(d) for d in L.w['vehicles']]

    def after_simulate(self, L):
        R = L.R
        n1 = L.vs[0].signals['state'].shape[1]
        n0, self.n = self.n, n1
        if n1 <= n0:
            return
        for i, v in enumerate(L.vs):
            d = L.w['vehicles'][i]
            o = d.get('options') or {}
            S = v.signals
            tr = v.trajectories
            m = n1 - n0
            R.check(np.isfinite(S['state'][:, n0:]).all() and np.isfinite(S['input'][:, n0:]).all(), 'not-finite', 'non-finite record')
            Pm = models.pose(d, S['state'][:, n0:])
            R.check(np.abs(S['pose'][:, n0:] - Pm).max() < 1e-9, 'pose', lambda: 'step %d %s: recorded pose is not that of the recorded state' % (L.k, d['type']))
            if o.get('ideal_update'):
                e = max(np.abs(S[q][:, n0:] - tr[q][:, 1:m+1]).max() for q in ('state', 'input', 'pose'))
                R.check(e < 1e-9, 'ideal', lambda: 'step %d %s: an ideal vehicle recorded something else than its plan (%.3g)' % (L.k, d['type'], e))
                continue
            # the input at the start of the step: the first of the plan; with
            # a lag the last recorded one; with a (slowly varying, unrecorded)
            # disturbance it is estimated from the next samples
            U = S['input'][:, n0-1:n1].copy()
            lag, dist = o.get('1storder_delay'), o.get('input_disturbance')
            eU = 0.
            if not lag and not dist:
                U[:, 0] = tr['input'][:, 0]
                e = np.abs(S['input'][:, n0:] - tr['input'][:, 1:m+1]).max()
                R.check(e < 1e-9, 'input', lambda: 'step %d %s: recorded input differs from the plan in force by %.3g' % (L.k, d['type'], e))
            elif not lag:
                D = S['input'][:, n0:n1] - tr['input'][:, 1:m+1]
                U[:, 0] = tr['input'][:, 0] + D[:, 0]
                eU = .02 + 2.*(np.abs(D[:, 0] - D[:, 1]).max() if m > 1 else .1)
            X = models.rk4(self.odes[i], L.start_state[i], U, L.Ts, m)
            got = S['state'][:, n0:n1]
            # rounding of the reference integrator
            T = m*L.Ts
            gain = 1. + (10.*T + 5.*T*T if 'uadrotor' in d['type'] else 0.)
            rate = np.abs(np.diff(X, axis=1)).max()/L.Ts     # a car steered to the stop spins
            tol = 2e-5*max(1., np.abs(got).max(), rate) + .5*L.Ts*eU*gain
            if lag:      # the lagged input is recorded at the samples, used in between
                tol += 2e-4*gain
            e = max(np.abs(models.state_diff(d, got[:, k], X[:, k+1])).max() for k in range(m))
            R.check(e <= tol, 'integral', lambda: 'step %d %s: recorded states are %.3g away from the integral of the recorded inputs' % (L.k, d['type'], e))
            R.probe('integrated')
            R.state(d['type'], 'dist' if o.get('input_disturbance') else '', 'lag' if o.get('1storder_delay') else '', L.dt > L.Tu+1e-9, L.ok(v))
            if o.get('1storder_delay') and not o.get('input_disturbance'):
                tau = o['time_constant']
                u0 = L.start_input[i]
                Um = models.rk4(lambda u, r_: (r_ - u)/tau, u0, tr['input'], L.Ts, m)
                e = np.abs(Um[:, 1:] - S['input'][:, n0:]).max()
                R.check(e <= 1e-4, 'lag', lambda: 'step %d %s: recorded input is %.3g away from the first order lag of the plan' % (L.k, d['type'], e))

    def before_update(self, L):
        pass
