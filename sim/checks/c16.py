"""C16: a tool follows its program."""
from ..loop import *
from .. import gen as G
import io
import math

RUNS = {'quick': 60, 'thorough': 900}
CPU = 200
MIN_S = 45
SHRINK_LISTS = ('faults', 'moves')
RULE = 'non-trivial: at least two blocks of a program were machined and judged; distinct: different event log'
STATE_MEASURE = 'kind of block x kind of next block x blocks at once x limit of speed x tolerance x failed before'
REAL = ['GCodeReader (without its window), GCodeBlock', 'GCodeSchedulerProblem, GCodeProblem', 'Deployer.update_segment', 'Tool', 'concat_splines', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'figures (not drawn)', 'file (in memory)', 'solver status and iterate (on injected faults)']
ASSUMPTIONS = ['a corner turns by at most 150 degrees', 'a program that crosses itself next to a corner may be cut short there', 'arcs of more than half a circle may be used beyond their ends', 'blocks are longer than four times the tolerance']


class Halt(Exception):
    pass


# ---------------------------------------------------------------- programs

def rot(v, a):
    return [v[0]*math.cos(a)-v[1]*math.sin(a), v[0]*math.sin(a)+v[1]*math.cos(a)]


def gen(r, i, tier):
    tol = r.choice([.01, .01, .05, .1, .002])
    n = r.choice([2, 3, 4, 5, 6])
    moves, h = [], r.choice([0., math.pi/2., round(r.uniform(-3, 3), 3)])
    for k in range(n):
        m = {}
        x = r.random()
        m['turn'] = 0. if k == 0 else (r.choice([0., math.pi/2., -math.pi/2.]) if x < .35 else round(r.choice([-1, 1])*r.uniform(.2, 2.6), 3))
        if r.random() < .6:
            m.update(k='line', l=round(r.choice([1., 1., 4.])*r.uniform(1., 3.), 3))
        else:
            m.update(k=r.choice(['cw', 'ccw']), r=round(r.uniform(1., 4.), 3), a=round(r.choice([r.uniform(.4, 2.8), r.uniform(.4, 2.8), math.pi/2., math.pi, r.uniform(3.2, 4.5)]), 4))
            if tol < .01:       # (a curve of so many pieces comes no closer to a long arc)
                m.update(r=min(m['r'], 2.5), a=min(m['a'], 1.7))
        moves.append(m)
    s = {'moves': moves, 'heading': h, 'start': r.choice([[0., 0., 0.], [0., 0., 0.], [round(r.uniform(-20, 20), 2), round(r.uniform(-20, 20), 2), r.choice([0., -2., 5.])]]),
         'tol': tol, 'n_segments': r.choice([1, 2, 3, 3, 4]), 'knots': r.choice([8, 10, 10, 14]), 'style': r.getrandbits(30),
         'Ts': r.choice([.001, .001, .0005, .003]), 'vel_limit': r.choice(['machining', 'machining', 'axes']),
         'split_circle': r.random() < .5, 'kw': {}}
    v = r.choice([16.6, 10., 40.])
    s['bounds'] = {'vmin': -v, 'vmax': v, 'amin': -20e3, 'amax': 20e3, 'jmin': -1500e3, 'jmax': 1500e3}
    if r.random() < .35:
        a, j = r.choice([300., 1000.]), r.choice([2e4, 1e5])
        s['bounds'].update(amin=-a, amax=a, jmin=-j, jmax=j)
    if r.random() < .3:
        s['bounds'].update(vzmin=0., vzmax=0.)
    if r.random() < .3:
        s['kw'] = {'variable_tolerance': True, 'split_length': r.choice([0., 2.]), 'split_small': r.choice([.1, .2])}
        s['tol_small'] = tol/r.choice([2., 4.])
    s['faults'] = []
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        k = r.randrange(0, n+1)
        for q in range(r.choice([1, 1, 2, 3])):
            s['faults'].append({'k': k+q, 'kind': 'solver', 'status': r.choice(['Infeasible_Problem_Detected', 'Maximum_Iterations_Exceeded', 'Maximum_CpuTime_Exceeded', 'Restoration_Failed']),
                                'progress': round(r.random(), 2)})
    return s


def path(s):
    """[(kind, start, end, centre, angle)] from the moves"""
    p, h, out = s['start'][:2], s['heading'], []
    z = s['start'][2]
    for m in s['moves']:
        h = h + m['turn']
        d = rot([1., 0.], h)
        if m['k'] == 'line':
            q = [round(p[0]+m['l']*d[0], 4), round(p[1]+m['l']*d[1], 4)]
            out.append(('line', p, q, None, 0., z, h, h))
            h = math.atan2(q[1]-p[1], q[0]-p[0])
        else:
            sg = -1. if m['k'] == 'cw' else 1.
            c = rot([0., sg*m['r']], h)
            ij = [round(c[0], 4), round(c[1], 4)]
            c = [p[0]+ij[0], p[1]+ij[1]]
            e = rot([p[0]-c[0], p[1]-c[1]], sg*m['a'])
            q = [round(c[0]+e[0], 4), round(c[1]+e[1], 4)]
            out.append((m['k'], p, q, c, m['a'], z, h, h+sg*m['a']))
            h = h + sg*m['a']
        p = q
    return out


def text(s, P):
    """the program as it might come out of a CAM package"""
    import random
    r = random.Random(s['style'])
    L = []
    if r.random() < .5:
        L += ['%', '(PROGRAM %d)' % r.randrange(100)]
    num = r.random() < .4
    N = 10
    z = P[0][5]
    ln = 'G00 X%.4f Y%.4f' % tuple(P[0][1]) + (' Z%.4f' % z if z or r.random() < .3 else '')
    if r.random() < .3:
        L.append('')
    first = True
    for b in [None]+P:
        if b is not None:
            k, p, q, c = b[:4]
            ln = {'line': 'G01', 'cw': 'G02', 'ccw': 'G03'}[k]
            if not (p[0] == q[0] and k == 'line' and r.random() < .5):
                ln += ' X%.4f' % q[0]
            if not (p[1] == q[1] and k == 'line' and r.random() < .5):
                ln += ' Y%.4f' % q[1]
            if k != 'line':
                ij = [round(c[0]-p[0], 4), round(c[1]-p[1], 4)]
                for n_, x in zip('IJ', ij):
                    if x or r.random() < .5:
                        ln += ' %s%.4f' % (n_, x)
            if r.random() < .2:
                ln += ' (comment)'
        if num:
            ln = 'N%d ' % N + ln
            N += 10
        L.append(ln)
        if r.random() < .1:
            L.append(r.choice(['(comment)', 'M08', 'S1000', 'G41' if not num else 'M07']))
    return '\n'.join(L) + '\n'


# ---------------------------------------------------------------- judging

def off(b, x):
    """distance from the line or circle the block is part of"""
    k, p, q, c = b[:4]
    if k == 'line':
        l = math.hypot(q[0]-p[0], q[1]-p[1])
        return np.abs(-(q[1]-p[1])*(x[0]-p[0])+(q[0]-p[0])*(x[1]-p[1]))/l
    return np.abs(np.hypot(x[0]-c[0], x[1]-c[1])-math.hypot(p[0]-c[0], p[1]-c[1]))


def away(b, x):
    """distance from the block itself"""
    k, p, q, c = b[:4]
    ends = np.minimum(np.hypot(x[0]-p[0], x[1]-p[1]), np.hypot(x[0]-q[0], x[1]-q[1]))
    if k == 'line':
        l = math.hypot(q[0]-p[0], q[1]-p[1])
        u = ((q[0]-p[0])*(x[0]-p[0])+(q[1]-p[1])*(x[1]-p[1]))/l
        on = (u >= 0.) & (u <= l)
    else:
        sg = -1. if k == 'cw' else 1.
        t = np.mod(sg*(np.arctan2(x[1]-c[1], x[0]-c[0])-math.atan2(p[1]-c[1], p[0]-c[0])), 2*math.pi)
        on = t <= b[4]
    return np.where(on, off(b, x), ends)


def corner(b0, b1, tol):
    """how far from a corner the strips around two blocks still overlap"""
    t = abs((b1[6]-b0[7]+math.pi) % (2*math.pi)-math.pi)
    al = math.pi-t          # angle between them
    return t, tol*max(1./math.sin(al/2.), 1./max(1e-9, math.cos(al/2.)))


def apart(b0, b1, tol):
    """do the strips around two blocks meet at the corner only"""
    t, m = corner(b0, b1, tol)
    k, p, q, c = b0[:4]
    u = np.linspace(0., 1., 400)
    if k == 'line':
        x = np.array([p[0]+u*(q[0]-p[0]), p[1]+u*(q[1]-p[1])])
    else:
        h = math.atan2(p[1]-c[1], p[0]-c[0])+(-1. if k == 'cw' else 1.)*b0[4]*u
        x = np.array([c[0]+np.cos(h)*math.hypot(p[0]-c[0], p[1]-c[1]), c[1]+np.sin(h)*math.hypot(p[0]-c[0], p[1]-c[1])])
    x = x[:, np.hypot(x[0]-q[0], x[1]-q[1]) > 1.3*m+tol]
    # (the end of a block is not where its strip ends: any of the line or circle it is part of may be used)
    return x.shape[1] == 0 or off(b1, x).min() > 2.2*tol


class Machine:
    def __init__(self, spec, R):
        self.s, self.R = spec, R
        self.obs, self.pending = [], None
        self.P = path(spec)

    def solve_time(self):
        return .01

    def blocks(self):
        rd = object.__new__(GCodeReader)
        rd.GCodes = ['G00', 'G01', 'G02', 'G03']
        rd.commands, rd.blocks = [], []
        rd.read(io.BytesIO(text(self.s, self.P).encode()))
        rd.create_blocks()
        out = []
        for d in rd.get_block_division(rd.get_gcode()):
            out += d
        return out

    def run(self):
        s, R = self.s, self.R
        install_clock()
        seed_numpy(7)
        with quiet():
            B = self.blocks()
        R.check(len(B) == len(self.P), 'program', lambda: '%d blocks read from a program of %d moves:\n%s' % (len(B), len(self.P), text(s, self.P)))
        for b, p in zip(B, self.P):
            e = max(abs(b.start[0]-p[1][0]), abs(b.start[1]-p[1][1]), abs(b.end[0]-p[2][0]), abs(b.end[1]-p[2][1]), abs(b.start[2]-p[5]), abs(b.end[2]-p[5]))
            R.check(e < 1e-3, 'program', lambda: 'block %s from %s to %s read as from %s to %s' % (p[0], p[1], p[2], b.start, b.end))
            if p[0] != 'line':
                R.check(math.hypot(b.center[0]-p[3][0], b.center[1]-p[3][1]) < 1e-3, 'program', lambda: 'centre of arc %s read as %s' % (p[3], b.center))
        with quiet():
            tool = Tool(s['tol'], **({'tol_small': s['tol_small']} if 'tol_small' in s else {}), bounds=dict(s['bounds']), options={'vel_limit': s['vel_limit']})
            tool.define_knots(knot_intervals=s['knots'])
            tool.set_initial_conditions(B[0].start)
            tool.set_terminal_conditions(B[-1].end)
            pr = GCodeSchedulerProblem(tool, B, n_segments=min(s['n_segments'], len(B)), split_circle=s['split_circle'], **s['kw'])
            pr.set_options({'solver_options': {'ipopt': {'ipopt.tol': 1e-5, 'ipopt.linear_solver': 'mumps', 'ipopt.warm_start_bound_push': 1e-6,
                                                         'ipopt.warm_start_mult_bound_push': 1e-6, 'ipopt.mu_init': 1e-5, 'ipopt.max_iter': 400, 'ipopt.print_level': 0}}})
        self.pr, self.tool = pr, tool
        R.log('rooms', [(r['start'], r['end'], r['number']) for r in pr.environment.room])
        # which block every room is a part of
        self.part = []
        k = 0
        for rm in pr.environment.room:
            self.part.append(min(k, len(self.P)-1))
            if k < len(self.P) and math.hypot(rm['end'][0]-self.P[k][2][0], rm['end'][1]-self.P[k][2][1]) < 1e-6 and k < len(self.P)-1:
                k += 1
        self.k = self.bad = 0
        d = Deployer(pr, sample_time=s['Ts'])
        d.init_plot = lambda: None
        d.update_plot = lambda *a: self.shown()
        self.d = d
        update = d.update

        generate = pr.generate_problem

        def generate_problem():
            p = generate()
            p.problem = Solver(p.problem, self)
            p.problem.next_fault, self.pending = self.pending, None
            return p
        pr.generate_problem = generate_problem

        def upd(t, *a, **kw):
            if self.k > 3*len(pr.environment.room)+2*len(s['faults'])+5:
                raise Halt()
            CLOCK.advance(.01)
            self.from_ = {q: None if kw.get(q) is None else np.array(kw[q], dtype=float).ravel() for q in ('states', 'inputs', 'dinputs')}
            self.arm()
            p = getattr(pr, 'local_problem', None)
            if p is not None and self.pending:
                p.problem.next_fault = self.pending
            out = update(t, *a, **kw)
            self.k += 1
            self.planned(out)
            return out
        d.update = upd
        self.done, self.T, self.n, self.failed, self.planned_record = [], [], 1, False, []
        try:
            with quiet():
                d.update_segment()
        except RuntimeError as e:
            if 'feasible trajectory' not in str(e):
                raise
            # a solver may get stuck halfway, or when it was brought off its course; it says so
            R.probe('gave_up')
            R.log('gave up', self.k)
            R.check(s['faults'] or self.done, 'gave-up', 'no plan found for the first block')
            return
        except Halt:
            R.violate('no-end', 'after %d solves for %d blocks the program has not ended: block %d, %s' % (self.k, len(self.P), pr.n_current_block, np.round(d.state_traj[:, -1], 4)))
            return
        self.end()

    def arm(self):
        f = [q for q in self.s['faults'] if q['k'] == self.k]
        self.pending = f[0] if f else None

    def status(self):
        return self.pr.local_problem.problem.status

    def limits(self, v, a, j, tol=1e-3):
        b, worst = self.s['bounds'], (0., '')
        vm, am, jm = b['vmax'], b['amax'], b['jmax']
        L = [(np.abs(a[:2]).max()/am, 'acceleration'), (np.abs(j[:2]).max()/jm, 'jerk')]
        if self.s['vel_limit'] == 'machining':
            L.append((np.hypot(v[0], v[1]).max()/vm, 'speed'))
        else:
            L.append((np.abs(v[:2]).max()/vm, 'velocity'))
        return max(L)

    def planned(self, tr):
        R, s, P = self.R, self.s, self.P
        good = self.status() in ('Solve_Succeeded', 'Solved_To_Acceptable_Level')
        self.good = self.status() == 'Solve_Succeeded'
        rooms = self.pr.environment.room
        n0 = self.pr.n_current_block
        T = list(self.pr.motion_times)
        R.log('plan', n0, self.status(), T, None if tr is None else tr['state'])
        R.simtime += T[0] if self.good else 0.
        if not self.good:
            R.probe('solve_not_successful')
            return
        R.probe('plan_judged')
        seg = self.tool.result_spline_segments
        R.check(all(np.isfinite(t) and t > 0. for t in T), 'duration', lambda: 'solve %d: durations %s' % (self.k, T))
        e = abs(float(np.ravel(tr['time'])[0])-sum(self.T))
        R.check(e < 1e-6, 'plan-time', lambda: 'solve %d: plan dated %.5f, blocks before it took %.5f' % (self.k, float(np.ravel(tr['time'])[0]), sum(self.T)))
        u = np.linspace(0., 1., 61)
        u[-1] = 1.
        for i, (sp, t) in enumerate(zip(seg, T)):
            X = [np.array([np.asarray(q.derivative(d)(u) if d else q(u)).ravel() for q in sp])/t**d for d in range(4)]
            b = P[self.part[n0+i]]
            w = off(b, X[0]).max()
            R.check(w <= 1.01*s['tol']+1e-5, 'plan-tolerance', lambda: 'solve %d: plan for block %d is %.5f from it (tolerance %g)' % (self.k, n0+i, w, s['tol']))
            w = np.abs(X[0][2]-b[5]).max()
            R.check(w <= 1.01*s['tol']+1e-5, 'plan-depth', lambda: 'solve %d: plan for block %d is %.5f off its depth' % (self.k, n0+i, w))
            w = self.limits(*X[1:])
            R.check(w[0] <= 1.002, 'plan-limit', lambda: 'solve %d: plan for block %d: %s at %.3f of its limit' % (self.k, n0+i, w[1], w[0]))
            if i == 0:
                for q, x, m in zip(('states', 'inputs', 'dinputs'), X, (1., s['bounds']['vmax'], s['bounds']['amax'])):
                    f = self.from_[q]
                    if f is None:
                        f = np.array(s['start'], dtype=float) if q == 'states' else np.zeros(3)
                    e = np.abs(x[:, 0]-f).max()/m
                    R.check(e < 2e-3*(s['tol'] if q == 'states' else 1.)+1e-6, 'plan-start', lambda: 'solve %d: plan starts with %s %s, the tool has %s' % (self.k, q, x[:, 0], f))
        b = P[self.part[n0]]
        nx = P[self.part[n0+1]] if n0+1 < len(rooms) else None
        R.state(b[0], nx and nx[0], len(T), s['vel_limit'], s['tol'], self.k and self.failed)
        self.failed = False

    def shown(self):
        # the motion of a block was recorded
        n = self.d.state_traj.shape[1]
        if self.good:
            self.done.append((self.pr.n_current_block, self.n, n))
            self.T.append(self.pr.motion_times[0])
            # what was planned for the instants that were recorded
            T = self.T[-1]
            u = np.minimum(np.r_[np.arange(1, n-self.n)*self.s['Ts'], T]/T, 1.)
            seg = self.tool.result_spline_segments[0]
            self.planned_record.append([np.array([np.asarray(q.derivative(d)(u) if d else q(u)).ravel() for q in seg])/T**d for d in range(3)])
            self.n = n
        else:
            self.failed = True

    def end(self):
        R, s, P, d = self.R, self.s, self.P, self.d
        X, V, A, J = d.state_traj, d.input_traj, d.dinput_traj, d.ddinput_traj
        R.log('motion', X, V)
        Ts = s['Ts']
        if len(self.done) >= 2:
            R.reached = True
        nr = len(self.pr.environment.room)
        R.check([q[0] for q in self.done] == list(range(nr)), 'order', lambda: 'blocks machined: %s of %d' % ([q[0] for q in self.done], nr))
        R.check(all(Y.shape[1] == self.n for Y in (X, V, A, J)), 'record', lambda: '%s samples recorded, %d for blocks' % ([Y.shape[1] for Y in (X, V, A, J)], self.n))
        for (k, a, b), plan in zip(self.done, self.planned_record):
            for nm, Y, Z in zip(('position', 'velocity', 'acceleration'), (X, V, A), plan):
                e, m = np.abs(Y[:, a:b]-Z).max(), np.abs(Z).max()
                R.check(e <= 2e-2*m+1e-4, 'record', lambda: 'block %d: recorded %s is %.6f off the plan that was accepted (of at most %.5f)' % (k, nm, e, m))
        e = np.abs(X[:, -1]-np.array(list(P[-1][2])+[P[-1][5]])).max()
        R.check(e < 1e-3 and np.abs(V[:, -1]).max() < 1e-2*s['bounds']['vmax'], 'arrival', lambda: 'program ends %.5f from its end with velocity %s' % (e, V[:, -1]))
        w = self.limits(V, A, J)
        R.check(w[0] <= 1.01, 'motion-limit', lambda: 'recorded %s at %.3f of its limit' % (w[1], w[0]))
        for q, (k, a, b) in enumerate(self.done):
            i = self.part[k]
            x = X[:, a:b]
            w = off(P[i], x).max()
            R.check(w <= 1.02*s['tol']+1e-5, 'motion-tolerance', lambda: 'motion along block %d is %.5f from it (tolerance %g)' % (k, w, s['tol']))
            w = np.abs(x[2]-P[i][5]).max()
            R.check(w <= 1.01*s['tol']+1e-5, 'motion-depth', lambda: 'motion along block %d is %.5f off its depth' % (k, w))
            lim = s['tol']*math.sqrt(2.)
            for c in (i-1, i, i+1):
                # (more than half a circle: all of the ring may be used)
                if 0 < c+1 < len(P) and c >= 0 and max(P[c][4], P[c+1][4]) > math.pi-.01:
                    t, m = corner(P[c], P[c+1], s['tol'])
                    lim = max(lim, 4.*s['tol']/math.cos(t/2.))
            w = np.min([away(P[c], x) for c in range(max(0, i-1), min(len(P), i+2))], axis=0).max()
            R.check(w <= 1.05*lim+1e-5, 'motion-overshoot', lambda: 'motion along block %d is %.5f from any block around it (tolerance %g)' % (k, w, s['tol']))
            # was all of the block done
            if k+1 < nr and self.part[k+1] == i+1:
                t, m = corner(P[i], P[i+1], s['tol'])
                if t > .3 and max(P[i][4], P[i+1][4]) < math.pi-.01 and apart(P[i], P[i+1], s['tol']):
                    e = math.hypot(X[0, b-1]-P[i][2][0], X[1, b-1]-P[i][2][1])
                    R.check(e <= 1.3*m+1e-4, 'corner-cut', lambda: 'corner at the end of block %d passed at %.4f (tolerance %g, turn %.2f)' % (k, e, s['tol'], t))
            # one motion
            dt = np.full(b-a, Ts)
            if a == 1 or True:
                x0, v0, a0 = X[:, a-1], V[:, a-1], A[:, a-1]
                xs, vs = np.c_[x0, x], np.c_[v0, V[:, a:b]]
                T = self.T[q]
                dt[-1] = T-(b-a-1)*Ts
                R.check(-1e-6 < dt[-1] < Ts*1.001, 'record', lambda: 'block %d of %.5f s recorded with %d samples' % (k, T, b-a))
                h = np.abs(np.diff(xs, axis=1)-.5*dt*(vs[:, 1:]+vs[:, :-1]))
                m = s['bounds']['jmax']*dt**3/6.+s['bounds']['vmax']*2e-3*dt+1e-6
                R.check((h <= m).all(), 'motion-jump', lambda: 'block %d: recorded position jumps by %.6f from velocity x time' % (k, (h-m).max()))


def run(spec, R):
    Machine(spec, R).run()
