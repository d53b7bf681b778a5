"""Exported agents of a distributed problem: N agents as nodes, the harness is
their network.  Part of C14."""
from .. import build, gen as G, export as X
from ..boot import *
from ..core import Stop
from .c14 import Ctl, TIM

KEYS_I, KEYS_IJ, KEYS_JI = ('x_i', 'z_i', 'l_i'), ('z_ij', 'l_ij'), ('z_ji', 'l_ji')


def gen(r, i, tier):
    kind = r.choice(['formation', 'formation', 'formation', 'rendezvous'])
    N = r.choice([2, 3, 3, 4])
    w = G.fleet2d(r, N, kind)
    if r.random() < .4:
        w['problem']['interconnection'] = 'full'
    T = r.choice([8., 10., 12., 9.03, 7.])
    o = w['problem']['options']
    o['horizon_time'] = T
    o['rho'] = r.choice([.1, 1., 3.])
    o['init_iter'] = r.choice([0, 1, 2, 5])
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        ob = {'pos': [round(r.uniform(-.6, .6), 3), round(r.uniform(-1.5, 1.5), 3)], 'shape': {'k': 'circle', 'r': round(r.uniform(.1, .2), 3)}}
        if r.random() < .5:
            ob['vel'] = [round(r.uniform(-.05, .05), 3) for _ in range(2)]
        w['obstacles'].append(ob)
    s = {'world': w, 'agents': kind, 'events': []}
    s['opt'] = {'namespace': r.choice(['omg', 'omg', 'agent_1']), 'dir': r.choice(['export', 'my.export/x']), 'slash': r.random() < .5}
    Ts, n = r.choice(TIM)
    knot = T/10.
    # warm-up iterations and rho may be those of the exported problem
    s['session'] = [Ts, round(n*Ts, 6), r.choice(['integrate', 'integrate', 'ideal', 'provide']), min(int(T/Ts), 3*n + int(2.6*knot/Ts)),
                    r.choice([0, 1, 2]), r.choice([.1, 1.]), r.random() < .3]
    ev = s['events']
    for q in range(r.randint(5, 9)):
        e = {'kind': 'round', 'shift': r.choice([0, 0, 0, 1, n, int(knot/Ts), int(2.2*knot/Ts)]), 'order': r.sample(range(N), N)}
        if r.random() < .4:
            e['dx'] = [[round(r.uniform(-.02, .02), 4) for _ in range(2)] for _ in range(N)]
        if r.random() < .35:
            e['drop'] = [[r.randrange(N), r.randrange(2), r.choice('xz')] for _ in range(r.randint(1, 2))]
        if r.random() < .2:
            e['late_mail'] = [[r.randrange(N), r.randrange(2), r.choice('xz')]]
        if q and r.random() < .25:
            e['fails'] = [r.randrange(N), r.choice([0, 0, 1, n, int(knot/Ts)]), r.random() < .3]
        ev.append(e)
        if r.random() < .06:
            ev.append({'kind': 'rest'})
    return s


class Agent(Ctl):

    def __init__(self, R, spec, problem, index, ex):
        upd = problem.updaters[0]           # the one that was exported
        self.R, self.spec, self.ex, self.upd, self.a = R, spec, ex, upd, index
        self.problem, self.v = problem, upd.vehicle
        self.pr, self.f = upd.problem, upd.father_updx
        self.T = float(self.pr.options['horizon_time'])
        self.knot = self.T/10.
        self.obs = list(upd.environment.obstacles)
        self.od = [dict(pos=list(o['pos']), vel=list(o.get('vel', [0., 0.])), acc=[0., 0.], avoid=True) for o in spec['world']['obstacles']]
        d = spec['world']['vehicles'][index]
        self.xT0, self.x0_ = list(d['xT']), list(d['x0'])
        self.rel = [-c for c in spec['world']['problem']['configuration'][index]]
        pd = self.f.problem_description
        import casadi as cas
        self.fg = cas.Function('fg', [pd['var'], pd['par']], [pd['obj'], pd['con']])
        self.nlp = upd.problem_upd_x
        self.compared = 0
        self.t0 = 0.

    def begin(self, Ts, Tu, mode, L, init_iter, rho):
        self.Ts, self.Tu, self.mode, self.L, self.init_iter, self.rho = Ts, Tu, mode, L, init_iter, rho
        self.n = int(round(Tu/Ts))
        self.x, self.xT = list(self.x0_), list(self.xT0)
        self.var = None
        self.fresh()

    def fresh(self):
        Ctl.fresh(self)
        self.it, self.retry = 0, False
        u = self.upd
        self.adm = {k: np.zeros(u.q_i_struct.shape[0]) for k in KEYS_I}
        self.adm.update({k: np.zeros(u.q_ij_struct.shape[0]) for k in KEYS_IJ})
        self.adm.update({k: np.zeros(u.q_ji_struct.shape[0]) for k in KEYS_JI})

    def predicted(self, x, shift):
        if self.k == 0:
            return np.array(x), np.zeros(2)
        return Ctl.predicted(self, x, shift)

    def shifted(self):
        from omgtools.basics.spline_extra import shift_over_knot
        u = self.upd
        for keys, st, q in ((KEYS_I, u.q_i_struct, u.q_i), (KEYS_IJ, u.q_ij_struct, u.q_ij), (KEYS_JI, u.q_ji_struct, u.q_ji)):
            for k in keys:
                self.adm[k] = np.array(u._transform_spline(st(self.adm[k]), shift_over_knot, q).cat).ravel()

    def admm_parameters(self):
        u = self.upd
        for k in KEYS_I:
            u.var_admm[k] = u.q_i_struct(self.adm[k])
        for k in KEYS_IJ:
            u.var_admm[k] = u.q_ij_struct(self.adm[k])
        for k in KEYS_JI:
            u.var_admm[k] = u.q_ji_struct(self.adm[k])
        u.options['rho'] = self.rho
        self.v.rel_pos_c = list(self.rel)

    def update1(self, e, shift, mail, impossible=False):
        R, n = self.R, self.n
        first = self.it == 0
        if self.it <= self.init_iter:
            shift = 0
        k = self.k + shift
        total = k - self.kplan - n if self.plan is not None and self.k else 0
        x = list(self.x)
        if self.plan is not None and self.k:
            c, tau = self.plan
            x = list(self.spline(c, tau + min(total, max(self.L, n))*self.Ts)[:, 0])
            if 'dx' in e:
                x = [x[q] + e['dx'][self.a][q] for q in (0, 1)]
                R.fault('measurement_off')
        if impossible:
            x = [x[0] + 40., x[1]]
            R.fault('unsolvable')
        if shift:
            R.fault('late_update')
        obs = []
        for o, d in zip(self.obs, self.od):
            tm = self.wall(k) - self.Tu
            d['now'] = [d['pos'][q] + d['vel'][q]*tm for q in (0, 1)]
            d['vnow'] = list(d['vel'])
            cp, rad = o.shape.get_checkpoints()
            cp = [float(z) for p in cp for z in p]
            obs += d['now'] + d['vnow'] + d['acc'] + [len(cp)] + cp + [len(rad)] + [float(z) for z in rad] + [0, 1]
        nn, ns = self.nn, self.ns
        z, l = mail
        out = self.ask('update1', self.a, nn, int(shift == 0 and self.compared % 2), shift, self.L,
                       *(list(map(float, x)) + list(map(float, self.xT)) + list(map(float, self.rel)) + list(map(float, np.r_[z, l])) + [len(self.obs)] + obs))
        ok, status, L = bool(out['ok'][0]), out.get('status', ''), self.L
        st, it = out['states'].reshape(-1, 2), out['inputs'].reshape(-1, 2)
        R.log('update1', self.a, k, shift, ok, status, out['coeffs'])
        state0, input0 = self.predicted(x, total)
        knots = self.interval(k) - self.interval(self.kprev)
        R.state('agent', self.spec['agents'], self.mode, n, min(knots, 3), 'late' if shift else '', 'retry' if self.retry else '', 'warm' if self.it < self.init_iter else '', ok)
        # what it has to decide from
        if not first and not self.retry:
            self.adm['z_ji'], self.adm['l_ji'] = np.array(z), np.array(l)
        for _ in range(knots):
            self.shifted()
        self.admm_parameters()
        if first:
            u, nv = self.upd, self.f._var_struct(out['x0'])
            self.f.set_variables(nv)
            self.parameters_of(state0, input0, k)
            xi = self.xi(out['x0'])
            self.adm['x_i'], self.adm['z_i'], self.adm['z_ji'] = xi, xi, np.tile(xi, nn)
            self.admm_parameters()
        self.parameters(out['par'], k, state0, input0, first)
        self.bounds(out['lbg'], out['ubg'])
        self.know = k
        self.guess(out['x0'], knots, first, state0)
        self.kprev = k
        R.check(ok == (status == 'Solve_Succeeded'), 'answer', lambda: 'the solver says %s, update1() returns %r' % (status, ok))
        if not ok:
            R.check(bool((st == 777.).all() and (it == 777.).all() and (out['x'] == 777.).all()), 'answer', 'a failed update wrote to the caller\'s variables')
            R.probe('failed_updates')
            self.retry = True
            if not impossible:
                self.nlp(x0=self.x0, p=self.par, lbg=self.lb, ubg=self.ub)
                s = self.nlp.stats()
                R.check(s['return_status'] != 'Solve_Succeeded' or s['iter_count'] > 120, 'solution',
                        lambda: 'the exported agent fails (%s) on a problem the Python agent solves in %d iterations' % (status, s['iter_count']))
            self.k = k
            return False
        R.check(bool((st[L:] == 777.).all() and (it[L:] == 777.).all()), 'overrun', lambda: 'an update wrote more than the %d samples asked for' % L)
        c = out['coeffs'].reshape(2, -1)
        tau = self.since_knot(k)
        ts = tau + np.arange(L)*self.Ts
        es = float(np.max(np.abs(st[:L].T - self.spline(c, ts))))
        ei = float(np.max(np.abs(it[:L].T - self.spline(c, ts, 1))))
        R.check(es < 1e-7 and ei < 1e-7, 'samples', lambda: 'the trajectories handed out deviate from the plan by %.3g (state) and %.3g (input)' % (es, ei), k=k)
        xi = self.xi(out['var'])
        R.check(np.max(np.abs(xi - out['x'])) < 1e-7, 'message', lambda: 'the agent tells its neighbours %.3g else than what it plans' % np.max(np.abs(xi - out['x'])))
        self.solution(out, k)
        self.compared += 1
        if self.compared >= 2:
            R.reached = True
        self.adm['x_i'] = np.array(out['x'])
        self.plan, self.kplan = (c, tau), k
        self.var, self.astray, self.retry = out['var'], False, False
        self.k = k
        if self.it >= self.init_iter:
            self.k = k + n
        self.it += 1
        got = self.ask('clock', self.a)
        R.check(abs(got['time'][0] - self.k*self.Ts) < 1e-6 and int(got['iteration'][0]) == self.it, 'clock',
                lambda: 'the agent\'s clock is at %.6g s (iteration %d), it should be at %.6g s (%d)' % (got['time'][0], got['iteration'][0], self.k*self.Ts, self.it))
        return True

    def parameters_of(self, state0, input0, k):
        v = self.v
        v.prediction['state'], v.prediction['input'] = np.array(state0), np.array(input0)
        v.set_terminal_conditions(np.array(self.xT))
        self.pr.start_time = 0.
        for o, d in zip(self.obs, self.od):
            p, q, a = np.array(d['now']), np.array(d['vnow']), np.array(d['acc'])
            o.signals['position'], o.signals['velocity'], o.signals['acceleration'] = np.c_[p + self.Tu*q], np.c_[q], np.c_[a]
        self.f.set_parameters(k*self.Ts)

    def xi(self, var):
        self.f.set_variables(self.f._var_struct(var))
        return np.array(self.upd._get_x_variables().cat).ravel()

    def update2(self, x_j):
        R, u, a = self.R, self.upd, self.adm
        out = self.ask('update2', self.a, self.nn, *map(float, x_j))
        t = self.since_knot(self.kplan)
        par = u.set_parameters_upd_z(self.kplan*self.Ts)
        z_i, z_ij = [np.array(q).ravel() for q in u.problem_upd_z(a['x_i'], a['l_i'], a['l_ij'], x_j, t, self.T, self.rho, par)]
        zp, zijp = a['z_i'], a['z_ij']
        a['z_i'], a['z_ij'] = z_i, z_ij
        l_i, l_ij = [np.array(q).ravel() for q in u.problem_upd_l(a['x_i'], z_i, z_ij, a['l_i'], a['l_ij'], x_j, self.rho)]
        a['l_i'], a['l_ij'] = l_i, l_ij
        res = [float(q) for q in u.problem_upd_res(a['x_i'], z_i, zp, z_ij, zijp, x_j, t, self.T, self.rho)]
        R.log('update2', self.a, out['res'])
        for name, g, e in (('z', out['z_ij'], z_ij), ('l', out['l_ij'], l_ij), ('residuals', out['res'], np.array(res))):
            ok = g.size == e.size and float(np.max(np.abs(g - e) - 1e-6*(1 + np.abs(e)))) <= 0.
            R.check(ok, 'coordination', lambda: 'exported and Python agent differ by %.3g in %s' % (float(np.max(np.abs(g-e))) if g.size == e.size else -1., name))
        return out['z_ij'], out['l_ij']


def run(spec, R):
    vs, env, pr = build.world(spec['world'])
    N = len(vs)
    try:
        ex = X.Exported(pr, spec['agents'], 'admm', spec['opt'])
        ex.__enter__()
    except X.BuildError as e:
        R.violate('export-build', 'the exported code does not compile: %s' % str(e)[-600:])
        return
    try:
        Ts, Tu, mode, L, ii, rho, short = spec['session']
        o = spec['world']['problem']['options']
        if short:
            L, ii, rho = int(round(Tu/Ts)), o['init_iter'], o['rho']
        T = float(o['horizon_time'])
        out = ex.ask('init', N, Tu, Ts, T, L, ii, float(rho), int(mode == 'ideal'), int(mode == 'provide'), int(short))
        if out is None:
            R.violate('exported-dies', 'construction: %s' % ex.epitaph())
            return
        A = [Agent(R, spec, pr, v, ex) for v in range(N)]
        link = [1, -1] if spec['world']['problem'].get('interconnection') != 'full' else range(1, N)
        nb = [sorted({(v+q) % N for q in link}, key=lambda q: (q-v) % N) for v in range(N)]
        ns = int(out['shared'][0])
        R.check(int(out['length'][0]) == L, 'length', lambda: 'the exported agents plan %d samples, %d were asked for' % (out['length'][0], L))
        R.check(ns*len(nb[0]) == A[0].upd.q_ij_struct.shape[0], 'message', lambda: 'an agent of %d shares %d numbers with each neighbour, it should be %d' % (
            N, ns, A[0].upd.q_ij_struct.shape[0]//len(nb[0])))
        for a in A:
            a.ns, a.nn = ns, len(nb[a.a])
            a.begin(Ts, Tu, mode, L, ii, rho)
        slot = lambda v, w: nb[v].index(w)

        def empty():
            return {'x': [np.zeros(ns*len(nb[v])) for v in range(N)], 'z': [np.zeros(ns*len(nb[v])) for v in range(N)], 'l': [np.zeros(ns*len(nb[v])) for v in range(N)]}
        mail = empty()
        late = []

        def deliver(e, kind, v, w, vals):
            """from agent v to agent w"""
            q = slot(v, w)
            if [v, q, kind] in e.get('drop', []):
                R.fault('message_lost')
                return
            if [v, q, kind] in e.get('late_mail', []):
                late.append((kind, v, w, vals))
                R.fault('message_delayed')
                return
            put(v, w, vals)

        def put(v, w, vals):
            s = slot(w, v)
            for key, val in vals.items():
                mail[key][w][s*ns:(s+1)*ns] = val

        for e in spec['events']:
            if e['kind'] == 'rest':
                for a in A:
                    ex.ask('reset', a.a)
                    ex.ask('resetTime', a.a)
                    if a.plan is not None:
                        c, tau = a.plan
                        a.x = list(a.spline(c, tau + a.n*a.Ts)[:, 0])
                    a.t0 += a.k*a.Ts
                    a.fresh()
                mail = empty()
                late = []
                R.fault('reset')
                continue
            room = max(0, L - A[0].n)
            goal = max(a.k for a in A) + min(e['shift'], room)
            done = []
            fails = e.get('fails')
            for v in e['order']:
                a = A[v]
                m = (mail['z'][v].copy(), mail['l'][v].copy())
                bad = fails and fails[0] == v and a.it > 0
                ok = a.update1(e, goal - a.k, m, impossible=bool(bad))
                if R.violations:
                    return
                if bad and not fails[2]:
                    ok = a.update1(e, min(fails[1], max(0, room - (a.k - a.kplan - a.n))), m)
                    R.fault('retry')
                elif bad:
                    R.fault('agent_silent')
                if R.violations:
                    return
                if ok:
                    done.append(v)
            for v in done:
                for w in nb[v]:
                    deliver(e, 'x', v, w, {'x': A[v].adm['x_i']})
            for v in done:
                z, l = A[v].update2(mail['x'][v].copy())
                if R.violations:
                    return
                for w in nb[v]:
                    q = slot(v, w)
                    deliver(e, 'z', v, w, {'z': z[q*ns:(q+1)*ns], 'l': l[q*ns:(q+1)*ns]})
            R.simtime += Tu
            if len(late) > 1 or (late and 'late_mail' not in e):
                kind, v, w, vals = late.pop(0)
                put(v, w, vals)
    finally:
        ex.close()
