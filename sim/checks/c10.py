"""C10: problems do not influence one another, and a reset forgets the past.

mode `inter`: several closed loops live in one process; a seeded scheduler
hands the processor from one to another in the middle of their updates.  Each
must record exactly what it records when it is alone in a fresh process.

mode `tasks`: one set of vehicles is given task after task (new start, target,
obstacles, perhaps another problem on the same vehicles), with failed solves,
late updates and updates that are aborted half way; every task starts with a
reset and must be planned exactly as in a fresh process that only knows this
task."""
from ..loop import *
from ..core import Injected, Rec
from .. import scen, gen as G, models
import os
import pickle
import signal
import threading

RUNS = {'quick': 60, 'thorough': 900}
CPU = 260
MIN_S = 60
SHRINK_LISTS = ('order', 'tasks')
SHRINK_INTS = {}
RULE = 'non-trivial: at least one plan or step was compared with the same run alone; distinct: different event log'
STATE_MEASURE = 'mode x kinds of problems living together x faults before the reset'
REAL = ['Simulator', 'Deployer', 'Problem and its subclasses', 'OptiFather', 'Vehicle', 'Environment', 'ADMM', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of the loops (simulated, switches inside updates)', 'random numbers (seeded per loop)', 'solver status and iterate (on injected faults)', 'plant in task mode (independent RK4)']
ASSUMPTIONS = ['compared to 1e-6 (the same numerical steps are taken; in practice bit for bit)']

KINDS = [('holo', 26), ('h1d', 8), ('h3d', 4), ('dubins', 9), ('quad', 8), ('bike', 3), ('fleet', 6), ('formation', 12), ('rendezvous', 8), ('central', 4), ('squad3', 3)]
TKINDS = [('holo', 26), ('h1d', 8), ('dubins', 8), ('quad', 8), ('fleet', 5), ('formation', 18), ('rendezvous', 8), ('central', 4), ('dd', 8)]
TOL = 1e-6


def gen(r, i, tier):
    return inter(r) if r.random() < .42 else tasks(r)


def inter(r):
    subs = []
    for _ in range(r.choice([2, 2, 3])):
        k = scen.pick(r, KINDS)
        s = scen.scenario(r, k, push=.4, solver=.3, disturb=.15, delay=.1)
        s['steps'] = min(s['steps'], r.randint(3, 9))
        s['np_seed'] = r.randrange(2**31)
        if r.random() < .4:
            scen.change_of_mind(r, s)
        subs.append(s)
    if r.random() < .3:                     # twins: same world, other schedule
        subs[1] = json_copy(subs[0])
        subs[1]['slices'] = G.slices(r, subs[1]['Ts'], subs[1]['Tu'], subs[1]['steps'], True)
        subs[1]['events'] = []
    n = r.randint(40, 160)
    burst = r.choice([1, 1, 3, 8])
    order = []
    while len(order) < n:
        order += [r.randrange(len(subs))]*r.randint(1, burst)
    return {'mode': 'inter', 'subs': subs, 'order': order, 'share': r.random() < .5}


def json_copy(x):
    import json
    return json.loads(json.dumps(x))


def tasks(r):
    k = scen.pick(r, TKINDS)
    w = scen.world_of(r, k if k != 'dd' else 'formation', **({'freeT': r.random() < .4} if k in ('holo', 'h1d', 'dubins') else {}))
    if k == 'dd':
        w['problem']['kind'] = 'formation_dd'
    Ts, Tu = r.choice([(.01, .1), (.02, .1), (.05, .2), (.1, .5)])
    if not w['problem'].get('freeT') and k not in ('quad', 'squad3'):
        w['problem']['options']['horizon_time'] = r.choice([8., 10., 12., 9.03])
    probs = [w['problem']]
    if r.random() < .5:
        p = json_copy(w['problem'])
        if k in ('holo', 'h1d', 'dubins') and r.random() < .5:
            p['freeT'] = not p.get('freeT')
            p['options'].pop('horizon_time', None)
        elif not p.get('freeT'):
            p['options']['horizon_time'] = r.choice([7., 10., 11.]) if k != 'quad' else r.choice([5., 6.])
        probs.append(p)
    if k in ('formation', 'rendezvous', 'dd'):
        for p in probs:
            p['options']['init_iter'] = r.choice([0, 2, 5])
            if k == 'formation' and r.random() < .3:
                p['options']['nesterov_acceleration'] = True
                p['options']['nesterov_reset'] = r.random() < .5
    ts = []
    t = r.choice([0., 0., 3.7])
    nom = int(round(Tu/Ts))
    for j in range(r.choice([2, 2, 3])):
        n = r.randint(2, 5 if len(w['vehicles']) > 1 else 7)
        T = {'problem': r.randrange(len(probs)), 't': round(t, 6), 'steps': n, 'xs': [], 'obst': [], 'slices': G.slices(r, Ts, Tu, n, r.random() < .6), 'events': []}
        d = [round(r.uniform(-.35, .35), 3) for _ in range(2)]
        e = [round(r.uniform(-.35, .35), 3) for _ in range(2)]
        flip = r.random() < .4 and k in ('holo', 'h1d', 'quad', 'formation', 'rendezvous', 'central', 'dd')
        for v in w['vehicles']:
            a, b = list(v['x0']), list(v['xT'])
            m = min(len(b), 2) if k != 'h1d' else 1
            if j:
                for q in range(m):
                    a[q], b[q] = round(a[q] + d[q], 3), round(b[q] + e[q], 3)
                if flip:
                    for q in range(m):
                        a[q], b[q] = b[q], a[q]
            T['xs'].append([a, b])
        for o in w['obstacles']:
            # they stay about where they are: starts and targets move by .35
            T['obst'].append([[round(x + r.uniform(-.05, .05), 3) for x in o['pos']], [round(r.uniform(-.05, .05), 3) for _ in o['pos']]])
        if r.random() < .5:
            for f in scen.solver_faults(r, n, len(w['vehicles'])):
                f['progress'] = r.choice([.9, 1., .5])
                T['events'].append(f)
        if j < 2 and r.random() < .45:
            T['events'].append({'k': r.randint(0, n-1), 'kind': 'abort', 'agent': r.randrange(len(w['vehicles']))})
        for _ in range(r.randint(0, 2)):
            T['events'].append({'k': r.randint(1, max(1, n-1)), 'kind': 'offset', 'vehicle': r.randrange(len(w['vehicles'])), 'dx': [round(r.uniform(-.02, .02), 4) for _ in range(scen.PUSH.get(k, 2))]})
        ts.append(T)
        t += n*Tu*2 + r.choice([0., 5., 0.37])
    return {'mode': 'tasks', 'world': w, 'problems': probs, 'tasks': ts, 'Ts': Ts, 'Tu': Tu, 'kind': k,
            'build_late': r.random() < .5}


# ------------------------------------------------------------ in a fork

def alone(fn):
    """result of fn() computed in a child forked from here"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = ('ok', fn())
            except Stop:
                out = ('ok', None)
            except Exception as e:      # noqa
                import traceback
                out = ('exc', type(e).__name__, str(e)[:300], ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('dead',)


# ------------------------------------------------------------ interleaving

class Tape(Observer):
    def __init__(self):
        self.rows = []

    def after_update(self, L):
        self.rows.append(('plan', L.k, [np.array(v.trajectories['state']) for v in L.vs], [np.array(v.trajectories['input']) for v in L.vs]))

    def after_simulate(self, L):
        self.rows.append(('sim', L.k, [v.signals['state'][:, -1].copy() for v in L.vs] + [o.signals['position'][:, -1].copy() for o in L.env.obstacles],
                          [np.r_[L.t, L.dt, float(L.stop_now)]]))


class Baton(Observer):
    """hands the processor over at every seam of the loop"""

    def __init__(self, S, i):
        self.S, self.i = S, i

    def start(self, L): self.S.switch(self.i)
    def before_update(self, L): self.S.switch(self.i)
    def before_solve(self, L, s, kw): self.S.switch(self.i)
    def after_update(self, L): self.S.switch(self.i)
    def after_simulate(self, L): self.S.switch(self.i)


class Sched:
    def __init__(self, n, order, R, seeds):
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.alive = set(range(n))
        self.order, self.pos, self.R = order, 0, R
        self.rng = []
        for s in seeds:
            np.random.seed(s)
            self.rng.append(np.random.get_state())
        self.cur = None
        self.switches = 0

    def pick(self):
        if self.pos < len(self.order):
            i = self.order[self.pos]
            self.pos += 1
            if i in self.alive:
                return i
        return min(self.alive, key=lambda i: (i <= (self.cur if self.cur is not None else -1), i))

    def go(self, i):
        if self.cur is not None and self.cur != i:
            self.rng[self.cur] = np.random.get_state()
            self.switches += 1
        if self.cur != i:
            np.random.set_state(self.rng[i])
        self.cur = i
        self.locks[i].release()

    def switch(self, me):
        nxt = self.pick()
        if nxt == me:
            return
        self.go(nxt)
        self.locks[me].acquire()

    def done(self, me):
        self.alive.discard(me)
        if self.alive:
            self.go(self.pick())
        else:
            self.main.release()


def loop_alone(s):
    np.random.seed(s['np_seed'])
    T = Tape()
    with quiet():
        Loop(json_copy(s), Rec(), [T]).run()
    return T.rows


def run_inter(spec, R):
    subs = spec['subs']
    refs = [alone(lambda s=s: loop_alone(s)) for s in subs]
    if spec.get('share'):
        subs = share(subs)
    tapes = [Tape() for _ in subs]
    S = Sched(len(subs), spec['order'], R, [s['np_seed'] for s in subs])
    errs = [None]*len(subs)
    old = sys.stdout

    def body(i):
        S.locks[i].acquire()
        try:
            Loop(subs[i], R, [tapes[i], Baton(S, i)]).run()
        except BaseException as e:      # noqa
            errs[i] = e
        S.done(i)
    for i in range(len(subs)):
        threading.Thread(target=body, args=(i,), daemon=True).start()
    S.go(S.pick())
    S.main.acquire()
    sys.stdout = old
    R.fault('switch_between_loops', S.switches)
    R.state('inter', *sorted(s['kind'] for s in subs))
    for i, s in enumerate(subs):
        ref = refs[i]
        e = errs[i]
        if ref[0] == 'dead':
            R.probe('reference_died')
            continue
        if isinstance(e, Stop):
            e = None
        if e is not None and not isinstance(e, Exception):
            raise e
        if ref[0] == 'exc' or e is not None:
            R.check(ref[0] == 'exc' and e is not None and type(e).__name__ == ref[1], 'other-outcome',
                    'loop %d (%s): alone %s, together %r' % (i, s['kind'], ref[1:3] if ref[0] == 'exc' else 'runs', e))
            continue
        compare(R, 'loop %d (%s)' % (i, s['kind']), ref[1], tapes[i].rows, 'interference')


def share(subs):
    """equal parts of the descriptions become one and the same object, as when
    a user defines his limits or options once and uses them for all"""
    pool = {}
    import json

    def walk(x, path):
        if isinstance(x, dict):
            for k in x:
                x[k] = walk(x[k], path + (k,))
            if path and path[-1] in ('bounds', 'options'):
                return pool.setdefault(json.dumps(x, sort_keys=True), x)
        elif isinstance(x, list):
            for q in range(len(x)):
                x[q] = walk(x[q], path + (q,))
        return x
    return [walk(json_copy(s), ()) for s in subs]


def compare(R, who, a, b, cls):
    for x, y in zip(a, b):
        R.reached = True
        if x[:2] != y[:2]:
            R.violate(cls, '%s: %s %d instead of %s %d' % (who, y[0], y[1], x[0], x[1]))
            return
        for q in (2, 3):
            for n, (u, v) in enumerate(zip(x[q], y[q])):
                same = u.shape == v.shape and (np.allclose(u, v, rtol=0, atol=TOL) or not np.all(np.isfinite(u)) and np.array_equal(u, v, equal_nan=True))
                if same and not np.array_equal(u, v, equal_nan=True):
                    R.probe('equal_but_not_bitwise')
                if not R.check(same, cls, lambda: '%s: %s of step %d differs from the run alone (%s %d) by %s' % (
                        who, x[0], x[1], 'state/plan' if q == 2 else 'input/clock', n, 'shape %s/%s' % (u.shape, v.shape) if u.shape != v.shape else np.max(np.abs(u-v)))):
                    return
        R.log('same', who, x[0], x[1], *[u[..., -1] for u in x[2]])
    R.check(len(a) == len(b), cls, '%s: %d records, alone %d' % (who, len(b), len(a)))


# ------------------------------------------------------------ tasks

class Session:
    """what a motion planning application holds: vehicles, world, problems, one
    deployer"""

    def __init__(self, spec, which, R):
        self.spec, self.R = spec, R
        self.w = json_copy(spec['world'])
        self.L = None
        self.vs = [build.vehicle(d) for d in self.w['vehicles']]
        self.env = build.environment(self.w)
        self.fleet = None
        self.pr = {}
        self.dep = None
        self.obs = []
        for j in which:
            self.add(j)

    def add(self, j):
        if j in self.pr:
            return
        w = dict(self.w, problem=self.spec['problems'][j])
        if self.fleet is None and len(self.vs) > 1:
            self.fleet = Fleet(self.vs)
            if w['problem'].get('configuration'):
                self.fleet.set_configuration([list(c) for c in w['problem']['configuration']])
        pr = build.problem(w, self.vs, self.env, self.fleet)
        ups = getattr(pr, 'updaters', None)
        if ups:
            S = []
            for u in ups:
                n = 'problem_upd_x' if hasattr(u, 'problem_upd_x') else 'problem_upd_xz'
                setattr(u, n, Solver(getattr(u, n), self, str(u._index)))
                S.append(getattr(u, n))
        else:
            pr.problem = Solver(pr.problem, self)
            S = [pr.problem]
        self.pr[j] = (pr, S)

    def solve_time(self):
        return .02

    def task(self, T):
        """runs one task; returns the plans made"""
        self.add(T['problem'])
        pr, S = self.pr[T['problem']]
        for s in S:
            s.next_fault = None
        if self.dep is None:
            self.dep = Deployer(pr, self.spec['Ts'], self.spec['Tu'])
        dep = self.dep
        if dep.problem is not pr:
            dep.set_problem(pr)
            self.R.fault('other_problem_same_vehicles')
        ds = self.w['vehicles']
        truth = []
        for i, (v, d, (a, b)) in enumerate(zip(self.vs, ds, T['xs'])):
            v.problem = pr.problems[i] if hasattr(pr, 'problems') else pr
            v.set_initial_conditions(np.array(a, dtype=float))
            if b is not None:
                v.set_terminal_conditions(np.array(b, dtype=float))
            x = np.array(a, dtype=float)
            if d['type'] == 'Quadrotor':
                x = np.r_[x, np.zeros(3)]
            truth.append(x)
        envs = [p.environment for p in pr.problems] if hasattr(pr, 'problems') else [pr.environment]
        for e in envs:
            for o, (p, v) in zip(e.obstacles, T['obst']):
                o.set_state({'position': list(p), 'velocity': list(v)})
        dep.reset()
        self.R.fault('reset')
        Ts, nom = self.spec['Ts'], int(round(self.spec['Tu']/self.spec['Ts']))
        odes = [models.ode(d) for d in ds]
        rows = []
        plans = None
        t = T['t']
        multi = len(self.vs) > 1
        for k in range(T['steps']):
            if k:
                m = max(nom, T['slices'][k % len(T['slices'])])
                if m + 2 > min(p['input'].shape[1] - 1 for p in plans):
                    break
                delay = m - nom
                if delay:
                    self.R.fault('late_update')
                t = round(t + m*Ts, 9)
                meas = []
                for i, (d, p) in enumerate(zip(ds, plans)):
                    meas.append(models.rk4(odes[i], truth[i], p['input'], Ts, delay)[:, -1].copy())
                    for e in T['events']:
                        if e['kind'] == 'offset' and e['k'] == k and e['vehicle'] == i:
                            dx = np.zeros(len(meas[i]))
                            q = min(len(dx), len(e['dx']))
                            dx[:q] = e['dx'][:q]
                            meas[i] = meas[i] + dx
                            self.R.fault('measurement_offset')
                truth = [models.rk4(odes[i], meas[i], p['input'][:, delay:], Ts, nom)[:, -1] for i, p in enumerate(plans)]
            else:
                meas = [x.copy() for x in truth]
            for e in T['events']:
                if e['k'] == k and e['kind'] in ('solver', 'abort'):
                    S[e.get('agent', 0) % len(S)].next_fault = dict(e, kind=e['kind'])
            try:
                with quiet():
                    dep.update(t, meas if multi else meas[0])
            except Injected:
                self.R.fault('update_aborted_half_way')
                rows.append(('aborted', k, [], []))
                return rows
            plans = [copy.deepcopy(v.trajectories) for v in self.vs]
            self.R.simtime += self.spec['Tu']
            rows.append(('plan', k, [p['state'] for p in plans], [p['input'] for p in plans]))
            if max(p['time'].shape[1] for p in plans) > 20000 or not all(np.all(np.isfinite(p['state'])) for p in plans):
                break
        return rows


def task_alone(spec, j):
    T = spec['tasks'][j]
    with quiet():
        s = Session(spec, [T['problem']], Rec())
        return s.task(T)


def run_tasks(spec, R):
    refs = [alone(lambda j=j: task_alone(spec, j)) for j in range(len(spec['tasks']))]
    with quiet():
        which = [] if spec['build_late'] else range(len(spec['problems']))
        S = Session(spec, which, R)
    for j, T in enumerate(spec['tasks']):
        ref = refs[j]
        R.log('task', j, T['problem'])
        err = None
        try:
            rows = S.task(T)
        except Exception as e:       # noqa
            if ref[0] == 'exc' and ref[1] == type(e).__name__:
                R.probe('crash_also_alone')
                raise
            R.violate('other-outcome', 'task %d (%s): %r, alone %s' % (j, spec['kind'], e, ref[0]))
            raise Stop()
        if ref[0] != 'ok':
            R.check(ref[0] == 'dead', 'other-outcome', 'task %d: %s alone, not after other tasks' % (j, ref[1:3]))
            continue
        R.state('tasks', spec['kind'], len(spec['problems']), T['problem'], j, any(e['kind'] == 'abort' for T2 in spec['tasks'][:j] for e in T2['events']))
        compare(R, 'task %d (%s)' % (j, spec['kind']), ref[1], rows, 'memory')
        if R.violations:
            raise Stop()


def run(spec, R):
    if spec['mode'] == 'inter':
        run_inter(spec, R)
    else:
        run_tasks(spec, R)
