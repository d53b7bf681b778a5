"""C12: the agents of a distributed problem plan from their own data and from
the messages that reached them, and come to an agreement."""
from .. import scen, models, gen as G
from ..loop import *
from scipy.interpolate import BSpline as _BS
import copy
import math
import random

RUNS = {'quick': 70, 'thorough': 900}
CPU = 200
MIN_S = 60
SHRINK_LISTS = ('events', 'slices', 'net')
SHRINK_INTS = {'steps': 3}
RULE = 'non-trivial: at least ten iterations of every agent were compared with the reference iteration; distinct: different event log'
STATE_MEASURE = 'problem kind x agents x interconnection x acceleration x knots passed x fault kinds in force'
REAL = ['Simulator', 'Deployer', 'ADMM and dual decomposition updaters', 'distributed problems', 'Fleet', 'Holonomic and Quadrotor models', 'CasADi+IPOPT']
STUB = ['network between the agents (simulated: loss, delay, duplication)', 'order in which the agents compute (seeded)', 'clock (virtual)', 'scheduler of update instants',
        'random numbers (seeded)', 'solver status and iterate (on injected faults)']
ASSUMPTIONS = ['a lost message leaves what the receiver knew; a delayed one arrives one iteration later, as it was sent',
               'an agent\'s own optimisation is taken from the solver; what it is asked to optimise is judged, not the optimum',
               'agreement again within 6 s after the last fault, to 2 cm (formation)']
TOL = 2e-6


CALM = 12       # updates that may meet faults in a run that is to settle


def gen(r, i, tier):
    if r.random() < .08:
        N = r.choice([2, 3, 4])
        w = G.fleet2d(r, N, 'formation')
        w['problem']['interconnection'] = r.choice(['circular', 'full'])
        c = w['problem']['configuration']
        a = w['vehicles'][0]['x0']
        for v, d in zip(w['vehicles'], c):
            v['x0'] = [round(a[q] - c[0][q] + d[q], 3) for q in (0, 1)]
            v['xT'] = [round(q + r.uniform(-.15, .15), 3) for q in v['xT']]
        w['problem']['options'].update({'rho': r.choice([.3, .5, 1.]), 'init_iter': 0})
        return {'world': w, 'iterations': 100, 'kind': 'formation'}
    kind = r.choice(['formation']*6 + ['rendezvous']*3 + ['formation_dd']*2)
    N = r.choice([2, 3, 3, 4, 4, 5]) if kind != 'formation_dd' else r.choice([2, 3])
    w = G.fleet2d(r, N, kind)
    o = w['problem']['options']
    w['problem']['interconnection'] = r.choice(['circular', 'circular', 'full'])
    T = r.choice([10., 10., 8., 12., 9.03, 6.4])
    o['horizon_time'] = T
    o['rho'] = round(math.exp(r.uniform(math.log(.1), math.log(4.))), 3)
    o['init_iter'] = r.choice([0, 1, 5, 5])
    o['max_iter_per_update'] = r.choice([1, 1, 1, 2, 3])
    if kind != 'formation_dd':
        if r.random() < .25:
            o['nesterov_acceleration'] = True
            o['nesterov_reset'] = r.random() < .6
            o['eta'] = r.choice([.999, .9, .5])
    s = scen.scenario(r, 'formation' if kind != 'rendezvous' else 'rendezvous', world=w, jitter=.5, horizon=0., timings=[(.01, 10), (.01, 20), (.02, 15), (.05, 5), (.1, 3)],
                      push=.35, amp=.15, solver=.25, retarget=.2 if kind == 'formation' else 0.)
    if r.random() < .4 and kind != 'rendezvous':
        for v in w['vehicles']:             # nobody where he should be
            v['x0'] = [round(c + r.uniform(-.12, .12), 3) for c in v['x0']]
    if r.random() < .35:
        # own limits and shapes: agents that differ need programs of their own
        o['separate_build'] = r.random() < .5
        s['own'] = True
        for v in w['vehicles']:
            v['bounds'] = G.bounds(r, 'Holonomic')
            v['shape'] = r.choice([{'k': 'circle', 'r': round(r.uniform(.08, .16), 3)}, {'k': 'square', 'w': round(r.uniform(.15, .3), 3)}])
        if r.random() < .4:
            for k in ('bounds', 'shape'):
                w['vehicles'][-1][k] = copy.deepcopy(w['vehicles'][0][k])
    s['kind'] = kind
    s['order'] = r.choice([0, 1, 1])
    s['steps'] = r.choice([12, 16, 20]) if o['max_iter_per_update'] == 1 else 10
    s['slices'] = (s['slices']*3)[:s['steps']]
    s['events'] = [e for e in s['events'] if e['k'] < s['steps']]
    net = s['net'] = []
    if r.random() < .65:
        # loss and delay windows: from agent, to agent, first and last iteration, phase, what happens
        iters = o['init_iter'] + s['steps']*o['max_iter_per_update']
        for _ in range(r.randint(1, 4)):
            a, b = r.sample(range(N), 2)
            k0 = r.randint(0, max(1, int(.7*iters)))
            m = r.choice(['lose', 'lose', 'delay', 'flaky'])
            net.append({'k': k0, 'from': a if r.random() < .8 else None, 'to': b if r.random() < .8 else None,
                        'until': k0 + r.choice([1, 2, 5, 10]), 'phase': r.choice([1, 2, None]), 'what': m, 'salt': r.randrange(1000)})
    if r.random() < .35 and kind != 'formation_dd' and not o.get('nesterov_acceleration'):
        # nothing happens any more after some updates
        s['calm'] = True
        nom = int(round(s['Tu']/s['Ts']))
        s['steps'] = CALM + int(math.ceil(max(2.*T, 9.)/s['Tu']))
        s['slices'] = s['slices'][:CALM] + [nom]*(s['steps'] - CALM)
        s['events'] = [e for e in s['events'] if e['k'] < CALM and e['kind'] != 'retarget']
        last = o['init_iter'] + CALM*o['max_iter_per_update']
        for e in net:
            e['k'], e['until'] = min(e['k'], last), min(e['until'], last)
    return s


# ------------------------------------------------------- reference splines

class Ref:
    """spline algebra on a clamped basis of n intervals on [0, 1]"""

    def __init__(self, basis):
        self.kn, self.k, self.m = np.array(basis.knots, dtype=float), basis.degree, len(basis)
        self.n = self.m - self.k
        self.over = self.refit(self.kn, lambda s, x: s(x + 1./self.n), self.kn)
        self.cache = {}

    def refit(self, kn_from, f, kn_to):
        k, m = self.k, self.m
        # interpolation points: enough inside every interval of the new basis
        u = np.unique(np.round(kn_to, 12))
        x = np.concatenate([np.linspace(a, b, k + 3)[1:-1] for a, b in zip(u[:-1], u[1:])])
        A = np.array([_BS(kn_to, e, k)(x) for e in np.eye(m)]).T
        B = np.array([f(_BS(kn_from, e, k, extrapolate=True), x) for e in np.eye(m)]).T
        return np.linalg.lstsq(A, B, rcond=None)[0]

    def fwd(self, t0):
        """first knots moved to t0: the part of the spline that lies ahead"""
        key = round(t0, 9)
        if key not in self.cache:
            kn = self.kn.copy()
            kn[:self.k+1] = t0
            F = self.refit(self.kn, lambda s, x: s(x), kn) if t0 > 1e-12 else np.eye(self.m)
            self.cache[key] = (F, np.linalg.inv(F))
        return self.cache[key]


class Node:
    def __init__(self, x, nb):
        zero = lambda: {j: np.zeros_like(x) for j in nb}
        self.nb = nb
        self.x, self.z, self.l = x.copy(), x.copy(), np.zeros_like(x)
        self.zij, self.lij, self.xj, self.lji = zero(), zero(), zero(), zero()
        self.zji = {j: x.copy() for j in nb}
        self.alpha, self.cp = 1., None
        self.queue = {}

    def shift(self, S):
        self.x, self.z, self.l = self.x.dot(S.T), self.z.dot(S.T), self.l.dot(S.T)
        for d in (self.zij, self.lij, self.xj, self.zji, self.lji):
            for j in d:
                d[j] = d[j].dot(S.T)


class Reference(Observer):
    """one reference agent beside every real one"""

    def start(self, L):
        self.kind = L.spec['kind']
        self.dd, self.rv = self.kind == 'formation_dd', self.kind == 'rendezvous'
        self.N = N = len(L.vs)
        self.o = o = L.w['problem']['options']
        self.T, self.rho = float(o['horizon_time']), float(o['rho'])
        self.conf = np.array(L.w['problem']['configuration'], dtype=float)
        full = L.w['problem'].get('interconnection') == 'full'
        self.nb = [[j for j in range(N) if j != i and (full or (i-j) % N in (1, N-1))] for i in range(N)]
        self.ref = Ref(L.vs[0].basis)
        self.Tk = self.T/L.vs[0].knot_intervals
        self.nodes = self.start_t = None
        self.it, self.compared, self.passed = -1, 0, 0
        self.last_fault = -1
        self.upd = list(L.pr.updaters)
        if L.spec.get('order'):
            class Shuffled(list):
                r = random.Random(L.spec['order']*77 + N)

                def __iter__(s):
                    q = list(list.__iter__(s))
                    s.r.shuffle(q)
                    return iter(q)
            L.pr.updaters = Shuffled(self.upd)
            L.R.probe('shuffled_agents')
        for i, u in enumerate(self.upd):
            u.communicate = lambda i=i, u=u, real=u.communicate: self.communicate(L, i, u, real)
        L.pr.dual_update = lambda t, ut, real=L.pr.dual_update: self.dual(L, real, t, ut)

    def dual(self, L, real, t, ut):
        self.it += 1
        self.phase, self.seen, self.did = {}, set(), set()
        real(t, ut)
        for k, w in self.res.items():
            g = float(L.pr.residuals[k][-1])
            L.R.check(abs(g - w) <= 1e-5*(1e-3 + abs(w)) + 1e-9, 'residual', lambda: 't=%.4f iteration %d: the %s residual is said to be %.6g, it is %.6g' % (L.t, self.it, k, g, w))

    # ------------------------------------------- what an agent is to optimise
    def x_of(self, L, i):
        """the centre of the fleet according to agent i"""
        v, f = L.vs[i], self.upd[i].father_updx
        if self.rv:
            c = np.array(f.get_variables(L.subproblem(v), 'conT0', spline=False), dtype=float).reshape(-1, 1)
        else:
            c = np.array(f.get_variables(v, 'splines_seg0', spline=False), dtype=float).T
        return c - self.conf[i][:, None]

    def before_solve(self, L, solver, kw):
        R = L.R
        i = L.solvers.index(solver)
        if self.start_t is None:
            self.start_t = self.t_prev = L.t
            self.nodes = [Node(self.x_of(L, q), self.nb[q]) for q in range(self.N)]
        if i in self.seen:
            return
        if not self.seen:
            self.shift(L)
        self.seen.add(i)
        n, u, p, par = self.nodes[i], self.upd[i], L.subproblem(L.vs[i]), kw['p']
        t, tau = float(np.ravel(par[p.label, 't'])[0]), self.tau(L)
        R.check(abs(t - tau) < 1e-5, 'time', lambda: 't=%.4f agent %d: the plan is said to have begun %.6f ago, it was %.6f' % (L.t, i, t, tau))
        if self.dd:
            want = {'l_ij': ('ij', n.lij), 'l_ji': ('ji', n.lji)}
        else:
            want = {'z_i': ('i', n.z), 'l_i': ('i', n.l), 'z_ji': ('ji', n.zji), 'l_ji': ('ji', n.lji)}
            rho = float(np.ravel(par[u.label, 'rho'])[0])
            R.check(abs(rho - self.rho) < 1e-12, 'weight', lambda: 'agent %d weighs deviations by %g, asked for %g' % (i, rho, self.rho))
        for name, (kind, val) in want.items():
            self.same(L, i, name, kind, np.array(par[u.label, name], dtype=float).ravel(), val)
        if not self.dd and (self.it + i) % 4 == 0:
            self.own(L, i, solver, kw)
        self.compared += 1
        if self.compared >= 10*self.N:
            R.reached = True
        R.log('x', self.it, i, *[np.asarray(n.z), np.asarray(n.l)])

    def index(self, i, kind, j):
        """where agent i keeps what concerns neighbour j"""
        key = (i, kind, j)
        self.idx = getattr(self, 'idx', {})
        if key not in self.idx:
            st = self.upd[i].q_ij_struct if kind == 'ij' else self.upd[i].q_ji_struct
            q = (self.upd[i].q_ij if kind == 'ij' else self.upd[i].q_ji)[self.upd[j]]
            num = st(np.arange(st.shape[0], dtype=float))
            self.idx[key] = np.concatenate([np.array(num[str(self.upd[j]), child.label, var], dtype=float).ravel() for child, names in q.items() for var in names]).astype(int)
        return self.idx[key]

    def same(self, L, i, name, kind, got, val):
        u, R = self.upd[i], L.R
        if kind == 'i':
            pairs = [(None, got, val)]
        else:
            tot = sum(val[j].size for j in self.nb[i])
            if not R.check(got.size == tot, 'neighbors', lambda: 'agent %d coordinates by %d numbers with its %d neighbours, it should be %d' % (i, got.size, len(self.nb[i]), tot)):
                raise Stop()
            pairs = [(j, got[self.index(i, kind, j)], val[j]) for j in self.nb[i]]
        for j, g, w in pairs:
            w = np.asarray(w).ravel()
            e = np.abs(g - w).max() if g.size == w.size else np.inf
            if not R.check(e <= TOL*(10. + np.abs(w).max()), 'message' if j is not None else 'coordination',
                           lambda: 't=%.4f iteration %d: agent %d plans with %s%s off by %.3g from what %s' % (
                               L.t, self.it, i, name, '' if j is None else ' of agent %d' % j, e, 'its own iterations give' if j is None else 'that one last told it')):
                raise Stop()

    def own(self, L, i, solver, kw):
        """its own problem, and the deviations from what was agreed upon"""
        n, u, R = self.nodes[i], self.upd[i], L.R
        if not hasattr(self, 'oracle'):
            self.oracle = {}
        if i not in self.oracle:
            o = solver.real.oracle()
            self.oracle[i] = o
        o = self.oracle[i]
        f = u.father_updx
        vec = lambda q: np.array(q.cat if hasattr(q, 'cat') else q, dtype=float).ravel()
        x, p = vec(kw['x0']), vec(kw['p'])
        ps = f._par_struct(p)
        for name in ('z_i', 'z_ji', 'l_i', 'l_ji', 'rho'):
            ps[u.label, name] = 0.
        p0 = vec(ps)
        r = np.random.RandomState(self.it*7 + i)
        xs = [x, x + .1*r.randn(x.size)]
        obj = lambda x, p: float(np.ravel(o(x=x, p=p)['f'])[0])
        got = [obj(q, p) - obj(q, p0) for q in xs]
        F = self.ref.fwd(self.tau(L)/self.T)[0] if not self.rv else np.eye(1)
        want = []
        for q in xs:
            var = f._var_struct(q)
            if self.rv:
                c = np.array(var[u.problem.label, 'conT0'], dtype=float).reshape(-1, 1)
            else:
                c = np.array(var[u.vehicle.label, 'splines_seg0'], dtype=float)
                c = c.reshape(self.ref.m, -1, order='A').T if c.ndim == 2 and c.shape[0] == self.ref.m else c.reshape(-1, self.ref.m)
            c = c - self.conf[i][:, None]
            s = 0.
            for z, l in [(n.z, n.l)] + [(n.zji[j], n.lji[j]) for j in n.nb]:
                d = (c - z).dot(F.T)
                s += (l.dot(F.T)*d).sum() + .5*self.rho*(d*d).sum()
            want.append(s)
        e = (got[1] - got[0]) - (want[1] - want[0])
        R.check(abs(e) <= 1e-6*(10. + sum(map(abs, got + want))), 'objective', lambda: 't=%.4f iteration %d: what agent %d minimises to stay in agreement is off by %.3g' % (L.t, self.it, i, e))
        R.probe('objective_judged')

    # ------------------------------------------------------------ iteration
    def tau(self, L):
        s = L.t - self.start_t
        return max(0., round(s - int(round(s/self.Tk, 6))*self.Tk, 6))

    def shift(self, L):
        a, b = [int(round((t - self.start_t)/self.Tk, 6)) for t in (self.t_prev, L.t)]
        self.passed, self.t_prev = b - a, L.t
        if not self.rv:
            for _ in range(min(self.passed, self.ref.n)):
                for n in self.nodes:
                    n.shift(self.ref.over)
        w = sorted({e['what'] for e in L.spec['net'] if e['k'] <= self.it < e['until']})
        L.R.state(self.kind, self.N, L.w['problem'].get('interconnection'), bool(self.o.get('nesterov_acceleration')), min(self.passed, 3), *w)

    def coordinate(self, L):
        """what the agents agree upon after they heard of each other"""
        rho = self.rho
        F, B = self.ref.fwd(self.tau(L)/self.T) if not self.rv else (np.eye(1), np.eye(1))
        c2 = p2 = d2 = 0.
        for i, n in enumerate(self.nodes):
            n.lp, n.lijp = n.l, n.lij
            n.zp, n.zijp = n.z, n.zij
            if self.dd:
                u = self.upd[i]
                z = np.array(u.father_updx.get_variables(u, 'z_ij', spline=False), dtype=float).ravel()
                n.zij = {j: z[self.index(i, 'ij', j)].reshape(n.x.shape) for j in n.nb}
            else:
                m = [(n.x + n.l/rho).dot(F.T)]
                m += [(n.xj[j] + n.lij[j]/rho).dot(F.T) for j in n.nb]
                m = sum(m)/len(m)
                if not self.rv:         # the centre comes to rest
                    m[:, -self.ref.k-1:] = m[:, -self.ref.k-1:].mean(axis=1)[:, None]
                n.z = m.dot(B.T)
                n.zij = {j: m.dot(B.T) for j in n.nb}
                n.l = n.l + rho*(n.x - n.z)
            n.lij = {j: n.lij[j] + rho*(n.xj[j] - n.zij[j]) for j in n.nb}
            sq = lambda q: float((q.dot(F.T)**2).sum())
            pr = sum(sq(n.xj[j] - n.zij[j]) for j in n.nb)
            if not self.dd:
                pr += sq(n.x - n.z)
                dr = sq(n.z - n.zp) + sum(sq(n.zij[j] - n.zijp[j]) for j in n.nb)
                c2 += rho*pr + rho*dr
                d2 += rho*dr
            p2 += pr
        self.res = {'primal': math.sqrt(p2)}
        if not self.dd:
            self.res.update({'dual': math.sqrt(d2), 'combined': c2})
        if self.o.get('nesterov_acceleration') and not self.dd:
            self.accelerate(c2)

    def accelerate(self, c):
        """Goldstein et al., fast ADMM (with restart)"""
        eta = self.o['eta']
        for n, u in zip(self.nodes, self.upd):
            if n.cp is None:
                n.cp = c/eta
            go = not self.o['nesterov_reset'] or c <= eta*n.cp
            if self.o['nesterov_reset'] and abs(c - eta*n.cp) < 1e-6*abs(c):
                go = u.alpha != 1.          # a close call, decided by rounding
            if go:
                a = n.alpha
                n.alpha = .5*(1 + math.sqrt(1 + 4*a*a))
                b = (a - 1)/n.alpha
                n.z, n.l = n.z + b*(n.z - n.zp), n.l + b*(n.l - n.lp)
                n.zij = {j: n.zij[j] + b*(n.zij[j] - n.zijp[j]) for j in n.nb}
                n.lij = {j: n.lij[j] + b*(n.lij[j] - n.lijp[j]) for j in n.nb}
                n.cp = c
            else:
                n.alpha, n.z, n.l, n.zij, n.lij = 1., n.zp, n.lp, n.zijp, n.lijp
                n.cp = n.cp/eta

    # ------------------------------------------------------------ messages
    def fate(self, L, i, j, phase):
        """of the message from j to i"""
        for e in L.spec['net']:
            if e['k'] <= self.it < e['until'] and e['from'] in (None, j) and e['to'] in (None, i) and e['phase'] in (None, phase):
                if e['what'] != 'flaky':
                    return e
                if random.Random(e['salt']*7919 + self.it*131 + i*17 + j*5 + phase).random() < .6:
                    return dict(e, what='lose')
        return None

    def communicate(self, L, i, u, real):
        phase = self.phase[i] = self.phase.get(i, 0) + 1
        if phase not in self.did:
            self.did.add(phase)
            if phase == 1:
                for q in range(self.N):
                    self.nodes[q].x = self.x_of(L, q)
            else:
                self.coordinate(L)
        n = self.nodes[i]
        v = u.var_dd if self.dd else u.var_admm
        keys = [('x_j', 'ij'), ('l_ji', 'ji')] + ([] if self.dd else [('z_ji', 'ji')])
        vec = lambda k: np.array(v[k].cat, dtype=float).ravel().copy()
        before = {k: vec(k) for k, _ in keys}
        real()
        after = {k: vec(k) for k, _ in keys}
        mine = ('x_j',) if phase == 1 else ('l_ji', 'z_ji')
        for j in n.nb:
            new = {'xj': self.nodes[j].x.copy()} if phase == 1 else {'lji': self.nodes[j].lij[i].copy(), 'zji': self.nodes[j].zij[i].copy()}
            slots = {k: (self.index(i, kd, j), after[k][self.index(i, kd, j)].copy()) for k, kd in keys if k in mine}
            e = self.fate(L, i, j, phase)
            q = n.queue.setdefault((phase, j), [])
            out = (slots, new)
            if e is None and q:
                if q[0][2] % 2:         # overtaken
                    out = q[0][:2]
                    L.R.fault('message_reordered')
                del q[:]
            elif e is not None:
                self.last_fault = L.k
                if e['what'] == 'lose':
                    L.R.fault('message_lost')
                    out = None
                else:
                    L.R.fault('message_delayed')
                    q.append(out + (e['salt'],))
                    out = q.pop(0)[:2] if len(q) > 1 else None
            if out is not None:
                for k, val in out[1].items():
                    getattr(n, k)[j] = val
                for k, (ix, val) in out[0].items():
                    after[k][ix] = val
            else:
                for k, (ix, _) in slots.items():
                    after[k][ix] = before[k][ix]
        if L.spec['net']:
            for k, kd in keys:
                st = u.q_ij_struct if kd == 'ij' else u.q_ji_struct
                v[k] = st(after[k] if k in mine else before[k])


class Agreement(Observer):
    """once faults have stopped: the agents agree, and arrive"""

    def start(self, L):
        self.calm = L.spec.get('calm')
        self.conf = np.array(L.w['problem']['configuration'], dtype=float)
        self.rows = []
        self.own = bool(L.spec.get('own') or L.w['problem']['options'].get('separate_build'))

    def gap(self, L, C=None):
        C = np.array(C if C is not None else [v.signals['pose'][:2, -1] for v in L.vs]) - self.conf
        return max(float(np.linalg.norm(a - b)) for a in C for b in C)

    def after_simulate(self, L):
        if not self.calm:
            return
        d = self.gap(L)
        self.rows.append((L.t, d))
        if L.k < CALM or L.spec['kind'] == 'rendezvous':
            return
        t0 = self.rows[min(CALM, len(self.rows)) - 1][0]
        if L.t - t0 >= 8.:
            L.R.check(d < .03, 'agreement', lambda: 't=%.4f: %.2f s after the last fault the agents are still %.3f m off the agreed positions' % (L.t, L.t - t0, d))
            L.R.probe('agreement_judged')

    def end(self, L):
        if not self.calm or not self.rows:
            return
        t, d = self.rows[-1]
        tag = 'after %d updates (t=%.2f)' % (len(self.rows), t)
        if L.spec['kind'] == 'rendezvous':
            if L.stopped and L.k > CALM:     # (nobody was pushed while the task ended)
                d = min(d, self.gap(L, [x[:2] for x in L.start_state]))     # they may still be moving
                L.R.check(d < .055, 'rendezvous', lambda: '%s the agents stop %.3f m apart from where they should meet' % (tag, d))
                L.R.probe('rendezvous_judged')
        elif L.stopped:
            L.R.check(d < .03, 'agreement', lambda: '%s the agents stop %.3f m off the agreed positions' % (tag, d))
        elif len(self.rows) >= L.spec['steps'] and not self.own:
            L.R.violate('no-arrival', '%s, twice the horizon after the last fault, the agents have not arrived' % tag)
        if L.stopped:
            L.R.probe('arrived')


def compare(spec, R):
    """enough iterations at rest: the agents find what one planner finds"""
    w = spec['world']
    one = copy.deepcopy(w)
    one['problem']['kind'] = 'formation_central'
    one['problem'].pop('interconnection')
    conf = np.array(w['problem']['configuration'], dtype=float)
    out = []
    for q in (w, one):
        with quiet():
            vs, env, pr = build.world(q)
            pr.reinitialize()
            pr.initialize(0.)
            pr.predict(0., 0., .05, [np.array(v['x0'], dtype=float) for v in q['vehicles']], None, None, 0, True, True)
            fine = True
            for it in range(spec['iterations'] if q is w else 1):
                pr.solve(0., 0.)
                R.simtime += .1
            for s in [u.problem_upd_x for u in pr.updaters] if q is w else [pr.problem]:
                fine = fine and s.stats()['return_status'] == 'Solve_Succeeded'
            pr.store(0., .1, .05)
        P = [np.array(v.trajectories['pose'])[:2] for v in vs]
        cost = sum(float(np.abs(p - np.array(d['xT'])[:, None]).sum(axis=0).mean()) for p, d in zip(P, q['vehicles']))
        gap = max(float(np.abs((a - c[:, None]) - (b - e[:, None])).max()) for a, c in zip(P, conf) for b, e in zip(P, conf))
        out.append((cost, gap, fine))
    (c, g, ok), (c1, g1, ok1) = out
    R.log('compared', c, g, ok, c1, g1, ok1)
    R.state('compare', len(w['vehicles']), w['problem'].get('interconnection'), ok, ok1)
    if not ok1:
        R.probe('one_planner_finds_nothing')
        return
    R.reached = True
    R.probe('compared_with_one_planner')
    R.check(g < 2e-3, 'convergence', lambda: 'after %d iterations at rest the agents plan %.3g m apart' % (spec['iterations'], g))
    R.check(not ok or g > 2e-3 or abs(c - c1) < 6e-3*(1. + c1), 'optimum', lambda: 'the agents agree on plans %.5g away from their targets on average, one planner finds %.5g' % (c, c1))


def run(spec, R):
    if 'iterations' in spec:
        return compare(spec, R)
    Loop(spec, R, [Reference(), Agreement()]).run()
