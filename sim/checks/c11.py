"""C11: the tasks of a session (runs, single steps, sleeping, another problem,
plans driven to the end) join up: one after the other on one clock, each from
where the previous one left off, each to its own target."""
from .. import scen, models, oracles, gen as G
from ..loop import *
from .c05 import errors
import math

RUNS = {'quick': 72, 'thorough': 600}
CPU = 150
SHRINK_INTS = {}
SHRINK_LISTS = ('ops', 'slices')
RULE = 'non-trivial: at least two tasks of a session were judged; distinct: different event log'
STATE_MEASURE = 'previous operation x operation x problem kind x free duration x vehicle type'
REAL = ['Simulator', 'Deployer', 'Problem (simulate, sleep, reinitialize)', 'Vehicle store/simulate', 'Environment.simulate', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of operations and update instants', 'random numbers (seeded)']
ASSUMPTIONS = ['a new task begins when the vehicles are at rest (a reset plans from rest)', 'paths free of obstacles, so that every task can be done']

KINDS = [('holo', 40), ('h1d', 22), ('h3d', 4), ('dubins', 6), ('quad', 4), ('fleet', 10), ('formation', 9), ('rendezvous', 4), ('central', 3)]
TIM = [(.01, 20), (.01, 25), (.02, 15), (.05, 6), (.1, 3), (.02, 17)]


def gen(r, i, tier):
    k = scen.pick(r, KINDS)
    kw = {}
    if k in ('holo', 'quad', 'dubins'):
        kw = {'n_obs': 0, 'dist': (.6, 2.)}
    w = scen.world_of(r, k, **kw)
    if k == 'fleet':
        w = G.fleet2d(r, 2, 'p2p', avoid=True, crossing=False)
    Ts, Tu = r.choice(TIM)
    Tu = round(Tu*Ts, 6)
    for v in w['vehicles']:
        o = v.setdefault('options', {})
        o.pop('syslimit', None)
        if k not in ('formation', 'rendezvous', 'central'):
            o['stop_tol'] = r.choice([.01, .02, .05])
        else:
            o['stop_tol'] = .1
        if k in ('holo', 'h1d') and r.random() < .15:
            o['ideal_update'] = o['ideal_prediction'] = True
    # an obstacle out of the way, so that there is another clock
    if k in ('holo', 'fleet', 'formation') or (k == 'dubins' and r.random() < .3):
        c = w['room'].get('pos', [0., 0.])
        s = r.choice([-1, 1])
        w['obstacles'] = [{'shape': {'k': 'circle', 'r': .1}, 'pos': [G.R3(c[0] - 2.2), G.R3(c[1] + s*2.25)], 'vel': [G.R3(r.uniform(.005, .02)), 0.]}]
        if r.random() < .4:
            t = G.R3(r.uniform(.3, 6.))
            w['obstacles'][0]['traj'] = {'velocity': {'time': [t, G.R3(t + r.uniform(.3, 3.))], 'values': [[.01, 0.], [-.02, 0.]]}}
    others = []
    if k in ('holo', 'h1d', 'fleet') and r.random() < .6:
        others.append({'kind': 'p2p', 'freeT': k != 'fleet' and r.random() < .5, 'options': dict(w['problem']['options'])})
    elif k == 'formation' and r.random() < .8:
        others.append(copy.deepcopy(w['problem']))
    if others and w['obstacles'] and r.random() < .5:
        others[0]['ignore'] = 0           # as the examples do: the second problem does not mind this obstacle
    ops = []
    n = {'formation': 2, 'rendezvous': 2, 'central': 2, 'h3d': 2}.get(k, r.choice([2, 3, 3, 4]))
    cur = 0
    for q in range(n):
        if q or r.random() < .3:
            s = r.random()
            if q and s < .5:
                ops.append({'op': 'sleep', 't': G.R3(r.choice([1, 3, 7, 40, 100, 230])*Ts)})
                if r.random() < .3:
                    ops.append({'op': 'sleep', 't': G.R3(r.choice([1, 5, 31])*Ts)})
            if q and others and (s > .4 or k == 'formation'):
                cur = r.randrange(len(others) + 1) if k != 'formation' else 1
                ops.append({'op': 'problem', 'i': cur})
        if q:
            ops.append({'op': 'target', 'd': [[G.R3(r.uniform(-.7, .7)) for _ in range(3)] for _ in w['vehicles']],
                        'a': [G.R3(r.uniform(-.5, .5)) for _ in w['vehicles']]})
            if r.random() < .25 and k in ('holo', 'h1d', 'h3d', 'dubins', 'fleet'):
                ops.append({'op': 'carry', 'vehicle': r.randrange(len(w['vehicles'])), 'd': [G.R3(r.uniform(-.3, .3)) for _ in range(3)]})
        s = r.random()
        if s < .62 or k in ('formation', 'rendezvous', 'central'):
            ops.append({'op': 'run'})
        elif s < .8 and k not in ('fleet', 'quad'):
            ops.append({'op': 'once'})
        else:
            ops.append({'op': 'steps', 'dt': [r.choice([int(round(Tu/Ts))]*3 + [r.randint(1, 2*int(round(Tu/Ts)))]) for _ in range(r.randint(1, 4))], 'reset': True})
            ops.append({'op': 'steps', 'dt': [int(round(Tu/Ts))], 'until': True})
    return {'world': w, 'others': others, 'Ts': Ts, 'Tu': Tu, 'kind': k, 'steps': 100000, 'ops': ops, 'events': [],
            'slices': G.slices(r, Ts, Tu, 11, r.random() < .4)}


class Session(Loop):
    def __init__(self, spec, R, observers=()):
        Loop.__init__(self, spec, R, observers)
        self.all = [(self.pr, self.w['problem'], self.solvers)]
        self.fresh_task = False
        for p in spec['others']:
            w2 = dict(self.w)
            w2['problem'] = p
            if 'ignore' in p:
                self.env.obstacles[p['ignore']].set_options({'avoid': False})
            pr = build.problem(w2, self.vs, self.env, self.pr.fleet if len(self.vs) > 1 else None)
            self.pr = pr
            self.wrap_solvers()
            self.all.append((pr, p, self.solvers))
        self.use(0)
        self.cap = None

    def use(self, i):
        self.pr, p, self.solvers = self.all[i]
        self.w['problem'] = p
        for v in self.vs:
            v.problem = self.subproblem(v)

    def begin_step(self):
        if self.cap is not None:
            self.cap -= 1
            if self.cap < 0:
                self.overrun = True
                raise Stop()
        Loop.begin_step(self)


class Joins(Observer):
    """the plan a task begins with starts from what was recorded last"""

    def before_update(self, L):
        self.first = L.sim.deployer.iteration0
        self.rec = [v.signals['state'][:, -1].copy() if hasattr(v, 'signals') else None for v in L.vs]

    def after_update(self, L):
        if not self.first:
            return
        L.fresh_task = True
        for i, v in enumerate(L.vs):
            if not L.ok(v):
                L.R.probe('task_begins_with_failed_solve')
                continue
            if L.plan_exhausted(v):          # it is there already
                continue
            d = L.w['vehicles'][i]
            x = v.trajectories['state'][:, 0]
            exp = self.rec[i]
            if exp is None:
                exp = np.zeros(len(x))
                exp[:len(d['x0'])] = d['x0']
            e = np.abs(models.state_diff(d, x, exp))
            e = e.max() if 'uadrotor' not in d['type'] else e[:2].max()     # at rest only to the tolerance
            L.R.check(e <= 2e-3, 'task-start', lambda: 'the task begun at %.3f is planned from %s, vehicle %d is at %s' % (
                L.t, np.round(x, 4), i, np.round(exp, 4)))
            if d['type'] in ('Holonomic', 'Holonomic1D', 'Holonomic3D'):
                u = np.abs(v.trajectories['input'][:, 0]).max()
                L.R.check(u <= 2e-3, 'task-start', lambda: 'the task begun at %.3f starts with speed %.4f, not from rest' % (L.t, u))
            L.R.probe('task_begun')


def moved(d, x, op, i, room):
    """the next target of vehicle i, near where it is"""
    n = len(np.ravel(d['xT']))
    c = room.get('pos', [0., 0., 0.])
    c = list(c) + [0.]*3
    out = []
    for q in range(n):
        if q == 2 and d['type'] == 'Dubins':
            out.append(round(float(x[2] + op['a'][i]), 3))
        else:
            out.append(round(float(min(max(d['xT'][q] + op['d'][i][q], c[q] - 1.7), c[q] + 1.7)), 3))
    if d['type'] == 'Dubins':       # ahead
        th = float(x[2]) + .4*op['a'][i]
        out[0], out[1] = round(float(x[0] + .8*math.cos(th)), 3), round(float(x[1] + .8*math.sin(th)), 3)
        if max(abs(out[0] - c[0]), abs(out[1] - c[1])) > 1.9:
            return None
    return out


def run(spec, R):
    H, I = oracles.History(), oracles.Integral()
    L = Session(spec, R, [Joins(), H, I])
    with quiet():
        for o in L.obs:
            o.start(L)
        drive(L, R, spec, H, I)


def clocks(L, R, op):
    n = L.vs[0].signals['time'].shape[1] if hasattr(L.vs[0], 'signals') else 1
    tt = np.asarray(L.sim.time)
    R.check(len(tt) == n, 'session-clock', lambda: 'after %s: %d clock ticks, %d samples recorded' % (op, len(tt), n))
    R.check(np.abs(tt - np.arange(n)*L.Ts).max() < 1e-6, 'session-clock', lambda: 'after %s: clock ticks %s' % (op, np.round(tt[-3:], 6)))
    R.check(abs(L.sim.current_time - (n-1)*L.Ts) < 1e-6, 'session-clock', lambda: 'after %s: it is %.6f, records end at %.6f' % (op, L.sim.current_time, (n-1)*L.Ts))


def drive(L, R, spec, H, I):
    prev = 'start'
    held = True          # the vehicles stand still
    tasks = 0
    for j, op in enumerate(spec['ops']):
        kind = op['op']
        started = hasattr(L.vs[0], 'signals')
        name = '%s (operation %d)' % (kind, j)
        R.log('op', j, kind)
        R.state(prev, kind, L.w['problem']['kind'], L.w['problem'].get('freeT', False), L.w['vehicles'][0]['type'])
        if kind == 'problem':
            if op['i'] < len(L.all) and held:
                L.use(op['i'])
                L.sim.set_problem(L.pr)
                R.fault('problem_changed')
        elif kind == 'target':
            if not held or not started or L.w['problem']['kind'] == 'rendezvous':
                continue
            if len(L.vs) > 1 and L.w['problem']['kind'] != 'p2p':
                ds = [op['d'][0]]*len(L.vs)          # the formation as a whole
            else:
                ds = [[.5*x for x in d] for d in op['d']] if len(L.vs) > 1 else op['d']
            new = [moved(d, v.signals['state'][:, -1], {'d': ds, 'a': op['a']}, i, L.w['room']) for i, (d, v) in enumerate(zip(L.w['vehicles'], L.vs))]
            if any(x is None for x in new):
                R.probe('session_ends_at_wall')
                return
            for d, v, x in zip(L.w['vehicles'], L.vs, new):
                d['xT'] = x
                v.set_terminal_conditions(np.array(x))
            R.fault('retarget')
        elif kind == 'carry':
            if not held or not started:
                continue
            i = op['vehicle'] % len(L.vs)
            v = L.vs[i]
            x = v.signals['state'][:, -1].copy()
            m = {'Holonomic1D': 1, 'Holonomic3D': 3}.get(L.w['vehicles'][i]['type'], 2)
            x[:m] += np.array(op['d'][:m])*(.2 if len(L.vs) > 1 else 1.)
            c = (list(L.w['room'].get('pos', [0., 0., 0.])) + [0.]*3)[:m]
            if np.abs(x[:m] - c).max() > 1.9:
                continue
            v.overrule_state(x)
            R.fault('carried_away')
        elif kind == 'sleep':
            if not held or not started:
                continue
            sleep(L, R, op, H, I, name)
        elif kind in ('run', 'once', 'steps'):
            if kind != 'steps' and not held:
                continue
            if kind == 'run':
                h = float(L.w['problem']['options'].get('horizon_time', 10.)) if not L.w['problem'].get('freeT') else 20.
                L.cap = int(3*h/min(L.Tu, min(spec['slices'])*L.Ts*3)) + 30
                for v in L.vs:
                    L.fresh_task = False
                try:
                    res = L.sim.run()
                except Stop:
                    R.probe('task_not_finished')
                    return
                L.cap = None
                R.check(L.fresh_task, 'task-start', lambda: name + ': began without a new plan')
                v0 = L.vs[0]
                traj, sig = res
                if len(L.vs) > 1:
                    R.check(len(sig) == len(L.vs), 'result', lambda: name + ': results of %d vehicles out of %d' % (len(sig), len(L.vs)))
                    traj, sig = traj[str(v0)], sig[str(v0)]
                R.check(all(np.array_equal(sig[q], v0.signals[q]) for q in v0.signals), 'result', lambda: name + ': returned records are not those of the vehicle')
                held = arrived(L, R, name)
            elif kind == 'steps':
                stop = False
                if op.get('reset'):
                    if not held:
                        continue
                    L.sim.deployer.reset()
                elif held:
                    continue
                if op.get('until'):
                    dts = [op['dt'][0]]*int(30/(op['dt'][0]*L.Ts))
                else:
                    dts = op['dt']
                for m in dts:
                    dt = round(m*L.Ts, 9)
                    L.forced = dt
                    n0 = L.vs[0].signals['time'].shape[1] if hasattr(L.vs[0], 'signals') else 1
                    try:
                        out = L.sim.step(update_time=dt)
                    except Stop:
                        R.probe('task_not_finished')
                        return
                    L.forced = None
                    stop = bool(out[3])
                    R.check(stop == L.stop_now, 'step-result', lambda: name + ': says stop=%s' % stop)
                    R.check(abs(out[1] - L.sim.current_time) < 1e-9, 'step-result', lambda: name + ': says it is %.4f' % out[1])
                    for v in L.vs:
                        x = out[0] if len(L.vs) == 1 else out[0][str(v)]
                        R.check(np.array_equal(np.ravel(x), v.signals['state'][:, -1]), 'step-result', lambda: name + ': returned state is not the recorded one')
                    if not L.w['problem'].get('freeT'):
                        R.check(abs(float(out[2]) - L.horizon(L.vs[0])) < 1e-9, 'step-result', lambda: name + ': says the motion takes %s' % out[2])
                    elif not stop:
                        R.check(abs(float(np.ravel(out[2])[0]) - L.horizon(L.vs[0])) < 1e-9, 'step-result', lambda: name + ': says the motion takes %s' % out[2])
                    clocks(L, R, name)
                    R.probe('single_step')
                    if stop:
                        break
                held = False
                if stop:
                    held = arrived(L, R, name)
            else:
                once(L, R, name, H, I)
                held = all(L.ok(v) for v in L.vs)
            tasks += 1
            R.log('end', j, *[v.signals['state'][:, -1] for v in L.vs])
            if not held and kind != 'steps':
                R.probe('session_cut')
                return
            clocks(L, R, name)
        prev = kind
    if tasks > 1:
        R.probe('session')


def arrived(L, R, name):
    """at its own target, at rest: the next task may begin"""
    if L.w['problem']['kind'] == 'rendezvous':
        return all(np.abs(v.signals['input'][:, -1]).max() < .05 for v in L.vs)
    ok = True
    for i, d in enumerate(L.w['vehicles']):
        p, s = errors(L, i)
        tol = d['options']['stop_tol']
        if not L.w['problem'].get('freeT'):
            R.check(p <= 1.01*tol and s <= 1.01*tol, 'task-end', lambda: name + ': ended %.4f from its target at speed %.4f (tolerance %g)' % (p, s, tol))
        elif L.ok():
            v = L.vs[i]
            x = v.signals['pose'][:2 if d['type'] != 'Holonomic3D' else 3]
            last = float(np.linalg.norm(x[:, -1] - x[:, -2]))
            R.check(p <= .02 + 2*last + .1*(d['type'] == 'Dubins'), 'task-end', lambda: name + ': ended %.4f from its target' % p)
        else:
            ok = False
    R.probe('task_done')
    return ok


def sleep(L, R, op, H, I, name):
    m = int(round(op['t']/L.Ts))
    S0 = [{q: v.signals[q].copy() for q in ('state', 'input', 'pose', 'time')} for v in L.vs]
    envs = [L.env] if not L.distributed() else [p.environment for p in L.pr.problems]
    O0 = [[{q: o.signals[q].copy() for q in ('position', 'velocity', 'time')} for o in e.obstacles] for e in envs]
    n0 = S0[0]['time'].shape[1]
    L.sim.sleep(op['t'])
    R.simtime += op['t']
    for i, v in enumerate(L.vs):
        d = L.w['vehicles'][i]
        ln = {q: v.signals[q].shape[1] for q in v.signals}
        R.check(set(ln.values()) == {n0 + m}, 'sleep', lambda: name + ' of %d samples: records grew from %d to %s' % (m, n0, ln))
        T = v.signals['time'].ravel()
        R.check(np.abs(T - np.arange(T.size)*L.Ts).max() < 1e-6, 'sleep', lambda: name + ': time axis %s' % np.round(T[n0-1:n0+3], 5))
        for q in S0[i]:
            R.check(np.array_equal(v.signals[q][:, :n0], S0[i][q]), 'sleep', lambda: name + ': rewrote what was recorded before')
        if 'uadrotor' in d['type']:
            continue
        u = np.abs(v.signals['input'][:, n0:]).max() if d['type'] != 'Dubins' else np.abs(v.signals['input'][:1, n0:]).max()
        R.check(u < 1e-7, 'sleep', lambda: name + ': sleeping vehicle %d has input %.4g' % (i, u))
        X = v.signals['state'][:, n0:]
        tol = 1e-7 if not d['options'].get('ideal_update') else d['options']['stop_tol']*1.2 + 1e-3
        e = np.abs(X - S0[i]['state'][:, -1:]).max() if d['type'] != 'Dubins' else np.abs((X - S0[i]['state'][:, -1:])[:2]).max()
        R.check(e < tol, 'sleep', lambda: name + ': sleeping vehicle %d moved by %.4f' % (i, e))
        st = v.traj_storage
        R.check(all(len(st[q]) == n0+m-1 for q in st), 'sleep', lambda: name + ': log of plans has %s entries for %d samples' % ({q: len(st[q]) for q in st}, n0+m-1))
    for e, O in zip(envs, O0):
        for o, b in zip(e.obstacles, O):
            n1 = o.signals['time'].size
            R.check(n1 == n0 + m, 'sleep', lambda: name + ': obstacle has %d samples, vehicles %d' % (n1, n0+m))
            if 'trajectories' not in (o.simulation or {}):
                x = b['position'][:, -1] + b['velocity'][:, -1]*m*L.Ts
                R.check(np.abs(o.signals['position'][:, -1] - x).max() < 1e-6, 'sleep', lambda: name + ': while sleeping the obstacle went to %s instead of %s' % (
                    np.round(o.signals['position'][:, -1], 5), np.round(x, 5)))
    if L.distributed():
        R.probe('slept_distributed')
    clocks(L, R, name)
    for q, v in enumerate(L.vs):
        for s in ('state', 'input', 'pose', 'time'):
            H.past[(q, s)] = v.signals[s].copy()
    H.n = n0 + m
    I.n = n0 + m
    R.fault('sleep')


def once(L, R, name, H, I):
    """one plan, driven to its end"""
    L.t = L.sim.current_time
    L.dt = 0.
    L.prev_plan = [None for v in L.vs]
    n0 = L.vs[0].signals['time'].shape[1] if hasattr(L.vs[0], 'signals') else 1
    out = L.sim.run_once()
    n1 = L.vs[0].signals['time'].shape[1]
    R.simtime += (n1 - n0)*L.Ts
    R.reached = True
    if not all(L.ok(v) for v in L.vs):
        R.probe('once_failed_solve')
        return
    for i, v in enumerate(L.vs):
        tr = v.trajectories
        if L.plan_exhausted(v):          # it is there already
            continue
        R.check(np.abs(tr['time'][0, 0] - (n0-1)*L.Ts) < 1e-6, 'once', lambda: name + ': planned from %.4f, it is %.4f' % (tr['time'][0, 0], (n0-1)*L.Ts))
        R.check(abs(n1 - n0 - (tr['time'].size - 1)) <= 1, 'once', lambda: name + ': a plan of %d samples was driven for %d' % (tr['time'].size-1, n1-n0))
        d = L.w['vehicles'][i]
        p, s = errors(L, i)
        if d['type'] in ('Holonomic', 'Holonomic1D', 'Holonomic3D', 'Dubins'):
            vmax = 1.
            R.check(p <= 5e-3 + vmax*L.Ts, 'once', lambda: name + ': driven to the end, vehicle %d is %.4f from its target' % (i, p))
        R.check(not hasattr(v, 'signals') or set(x.shape[1] for x in v.signals.values()) == {n1}, 'once', name + ': records differ in length')
    I.n = n0
    I.after_simulate(L)
    for q, v in enumerate(L.vs):
        for s in ('state', 'input', 'pose', 'time'):
            H.past[(q, s)] = v.signals[s].copy()
    H.n = n1
    R.probe('plan_driven_to_the_end')
    L.k += 1
