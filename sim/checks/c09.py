"""C09: obstacles move as described, whatever the slicing of simulated time,
and every planner sees the same obstacle."""
from ..loop import *
from .. import scen, gen as G, models
import math

RUNS = {'quick': 400, 'thorough': 6000}
CPU = 120
MIN_S = 45
SHRINK_LISTS = ('ops', 'events', 'slices')
SHRINK_INTS = {'steps': 2}
RULE = 'non-trivial: at least one recorded obstacle sample after a slice boundary was compared; distinct: different event log'
STATE_MEASURE = 'kind of motion (constant, events, measured, model, rotating, bouncing) x dimension x irregular slicing'
REAL = ['Environment.simulate', 'Obstacle', 'odeint', 'in closed-loop runs: Simulator, Deployer, Problem, DistributedProblem, CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of simulation slices (simulated)', 'sensor that overrides the obstacle state (simulated)']
ASSUMPTIONS = ['a motion event at exactly a sample instant may show in that sample or the next; one at exactly the instant of a measurement is not judged',
               'an obstacle that bounces is judged in a rectangular room, on leaving the room and on its speed only',
               'tolerance 1e-4 for the integrator']


def rnd(r, n, a):
    return [round(r.uniform(-a, a), 3) for _ in range(n)]


def obstacle(r, dim, kind):
    d = {'shape': {'k': 'circle', 'r': .2} if dim == 2 else {'k': 'sphere', 'r': .2}, 'pos': rnd(r, dim, 2.)}
    if kind != 'model':
        if r.random() < .7:
            d['vel'] = rnd(r, dim, .5)
        if r.random() < .3:
            d['acc'] = rnd(r, dim, .1)
    if dim == 2 and r.random() < .3:
        d['shape'] = {'k': 'rect', 'w': .3, 'h': .2}
        d['ori'] = round(r.uniform(-1, 1), 3)
        d['omega'] = round(r.uniform(-.5, .5), 3)
    return d


def times(r, Ts, end, n):
    out = set()
    while len(out) < n:
        t = r.uniform(Ts, end)
        if r.random() < .7:
            t = round(round(t/Ts)*Ts, 9)
        out.add(round(t, 4))
    out = sorted(out)
    if len(out) > 1 and r.random() < .3:          # a short burst
        out[1] = round(out[0] + r.choice([.01, .02, .05]), 4)
        out = sorted(set(out))
    return out


def gen(r, i, tier):
    x = r.random()
    if x < .1:
        return closed(r)
    Ts = r.choice([.01, .01, .02, .05, .1])
    nom = r.choice([10, 10, 5, 1, 3, 7])
    if x < .22:
        return bouncing(r, Ts)
    dim = 2 if r.random() < .75 else 3
    s = {'mode': 'env', 'kind': 'env', 'Ts': Ts, 'dim': dim, 'obstacles': [], 'ops': []}
    end = 0.
    for _ in range(r.randint(4, 25)):
        m = nom if r.random() < .5 else r.choice([1, 1, 2, nom+1, 2*nom, 3*nom, r.randint(1, 60)])
        s['ops'].append({'op': 'sim', 'n': m})
        end += m*Ts
    for _ in range(r.randint(1, 3)):
        kind = r.choice(['const', 'events', 'events', 'events', 'model'])
        o = obstacle(r, dim, kind)
        if kind == 'events':
            o['traj'] = {}
            for key in ('position', 'velocity', 'acceleration'):
                if r.random() < (.7 if key == 'velocity' else .3):
                    T = times(r, Ts, max(end*.95, 5*Ts), r.randint(1, 4))
                    V = [rnd(r, dim, {'position': .5, 'velocity': .6, 'acceleration': .2}[key]) for _ in T]
                    if len(T) > 1 and r.random() < .3:
                        V[1] = [-q for q in V[0]]
                    if r.random() < .25:
                        T, V = [0.] + T, [rnd(r, dim, .4)] + V
                    o['traj'][key] = {'time': T, 'values': V}
            if not o['traj']:
                o['traj'] = {'velocity': {'time': [round(3*Ts, 4)], 'values': [rnd(r, dim, .5)]}}
        if kind == 'model':
            o['model'] = {'damp': round(r.uniform(.1, 1.), 3), 'in': {'time': [0., round(r.uniform(.5, 1.5), 2), round(r.uniform(2., 4.), 2)],
                                                                     'values': [rnd(r, dim, 1.) for _ in range(3)]}}
        s['obstacles'].append(o)
    if r.random() < .3 and len(s['obstacles']) > 1:
        s['shared'] = True          # the same `initial` is used for all
        for o in s['obstacles'][1:]:
            for key in ('pos', 'vel', 'acc', 'ori', 'omega'):
                o.pop(key, None)
                if key in s['obstacles'][0]:
                    o[key] = s['obstacles'][0][key]
    for _ in range(r.choice([0, 0, 1, 2])):
        k = r.randrange(len(s['ops']))
        st = {'position': rnd(r, dim, 2.)}
        if r.random() < .7:
            st['velocity'] = rnd(r, dim, .5)
        if r.random() < .3:
            st['acceleration'] = rnd(r, dim, .1)
        if dim == 2 and r.random() < .2:
            st['orientation'] = round(r.uniform(-1, 1), 3)
        s['ops'].insert(k, {'op': 'measure', 'obstacle': r.randrange(len(s['obstacles'])), 'state': st})
    if r.random() < .4:
        s['ops'].insert(r.randrange(len(s['ops'])+1), {'op': 'copy'})
    return s


def bouncing(r, Ts):
    w, h = round(r.uniform(2., 4.), 2), round(r.uniform(2., 4.), 2)
    c = [0., 0.] if r.random() < .6 else rnd(r, 2, 1.)
    sh = {'k': 'circle', 'r': .2} if r.random() < .6 else {'k': 'rect', 'w': .3, 'h': .3}
    sp = r.choice([.5, 1., 1., 2.])
    th = r.choice([0., math.pi/2, math.pi, -math.pi/2, math.pi/4, 3*math.pi/4]) if r.random() < .5 else r.uniform(-math.pi, math.pi)
    v = [round(sp*math.cos(th), 4), round(sp*math.sin(th), 4)]
    nom = int(round(.1/Ts))
    ops = []
    jit = r.random() < .7
    for _ in range(r.randint(30, 80)):
        m = nom if (not jit or r.random() < .6) else r.choice([1, max(1, nom//2), 2*nom, 3*nom])
        ops.append({'op': 'sim', 'n': m})
    return {'mode': 'bounce', 'kind': 'bounce', 'Ts': Ts, 'room': {'k': 'rect', 'w': w, 'h': h, 'pos': c}, 'shape': sh,
            'pos': [round(c[0] + r.uniform(-.5, .5)*(w-.6), 3), round(c[1] + r.uniform(-.5, .5)*(h-.6), 3)], 'vel': v, 'ops': ops}


def closed(r):
    k = scen.pick(r, [('holo', 4), ('formation', 6), ('rendezvous', 2), ('h3d', 1)])
    w = scen.world_of(r, k)
    dim = 3 if k == 'h3d' else 2
    w['obstacles'] = []
    for q in range(2):
        o = {'shape': {'k': 'circle', 'r': .1} if dim == 2 else {'k': 'sphere', 'r': .1}, 'pos': [2.1*(1 if q else -1), 2.2] + [0.]*(dim-2), 'vel': [round(-.1*(1 if q else -1), 3), 0.] + [0.]*(dim-2)}
        if r.random() < .7:
            T = times(r, .1, 2., 2)
            o['traj'] = {'velocity': {'time': T, 'values': [rnd(r, dim, .1) for _ in T]}}
        w['obstacles'].append(o)
    s = scen.scenario(r, k, world=w, push=.2, solver=.2, horizon=.5, steps=12 if k != 'h3d' else 5)
    if r.random() < .5:
        scen.stall(r, s)
    s['mode'] = 'loop'
    return s


# ------------------------------------------------------------------ reference

class Ref:
    """closed form: polynomial between events"""

    def __init__(self, o, dim):
        z = [0.]*dim
        self.dim = dim
        self.t = 0.
        self.x = [np.array(o.get('pos', z), float), np.array(o.get('vel', z), float), np.array(o.get('acc', z), float)]
        self.ev = []
        for l, key in enumerate(('position', 'velocity', 'acceleration')):
            tr = (o.get('traj') or {}).get(key)
            if tr:
                for t, v in zip(tr['time'], tr['values']):
                    if t == 0:
                        self.x[l] = np.array(v, float)
                    else:
                        self.ev.append((t, l, np.array(v, float)))
        self.ev.sort(key=lambda e: e[0])

    def drift(self, x, dt):
        return [x[0] + x[1]*dt + .5*x[2]*dt*dt, x[1] + x[2]*dt, x[2]]

    def at(self, t, eps):
        """state at t; events up to t+eps included"""
        x, t0 = self.x, self.t
        for te, l, v in self.ev:
            if te <= self.t + 1e-9 and te <= self.done or te > t + eps:
                continue
            x = self.drift(x, te - t0)
            t0 = te
            x = list(x)
            x[l] = x[l] + v
        return self.drift(x, t - t0)

    done = 0.
    off = False

    def measured(self, t, st):
        z = np.zeros(self.dim)
        self.x = [np.array(st.get(k, z), float) for k in ('position', 'velocity', 'acceleration')]
        self.t = t
        self.done = t + 1e-9
        # a change of motion at the very instant of the measurement may or may not be part of it
        self.off = any(abs(e[0] - t) < 1e-6 for e in self.ev)


class ModelRef:
    """mass with damping under a linearly interpolated force, finely integrated"""

    def __init__(self, o, dim):
        self.dim, self.m = dim, o['model']
        self.x = np.r_[np.array(o['pos'], float), np.array(o.get('vel', np.zeros(dim)), float)]
        self.a = np.array(o.get('acc', np.zeros(dim)), float)
        self.t = 0.
        self.h = None

    def u(self, t):
        T, V = self.m['in']['time'], np.array(self.m['in']['values'], float)
        return np.array([np.interp(t, T, V[:, q]) for q in range(self.dim)])

    def at(self, t, eps):
        n = max(1, int(math.ceil((t - self.t)/.01)))
        h = (t - self.t)/n
        f = lambda x, s: np.r_[x[self.dim:], self.u(s) - self.m['damp']*x[self.dim:]]
        if h > 0:
            for q in range(n):
                s, x = self.t + q*h, self.x
                k1 = f(x, s); k2 = f(x+.5*h*k1, s+.5*h); k3 = f(x+.5*h*k2, s+.5*h); k4 = f(x+h*k3, s+h)
                self.x = x + h/6.*(k1+2*k2+2*k3+k4)
            self.t = t
        return [self.x[:self.dim], self.x[self.dim:], self.a]

    def measured(self, t, st):
        self.x = np.r_[np.array(st['position'], float), np.array(st.get('velocity', np.zeros(self.dim)), float)]
        self.a = np.array(st.get('acceleration', np.zeros(self.dim)), float)
        self.t = t


def make(o, init, dim):
    sim = {}
    if o.get('traj'):
        sim['trajectories'] = {k: {'time': list(t['time']), 'values': [list(x) for x in t['values']]} for k, t in o['traj'].items()}
    if o.get('model'):
        I, Z = np.eye(dim), np.zeros((dim, dim))
        A = np.block([[Z, I, Z], [Z, -o['model']['damp']*I, Z], [Z, Z, Z]])
        B = np.block([[Z], [I], [Z]])
        sim['model'] = {'A': A, 'B': B}
        sim['trajectories'] = {'input': {'time': list(o['model']['in']['time']), 'values': [list(x) for x in o['model']['in']['values']]}}
    return Obstacle(init, shape=build.shape(o['shape']), simulation=sim)


def initial(o):
    d = {'position': list(o['pos'])}
    for k, n in (('vel', 'velocity'), ('acc', 'acceleration'), ('ori', 'orientation'), ('omega', 'angular_velocity')):
        if k in o:
            d[n] = o[k] if not isinstance(o[k], list) else list(o[k])
    return d


def compare(R, ob, ref, th, j0, Ts, what):
    """the samples recorded since index j0, taken at th + q Ts"""
    P, V, A = (ob.signals[k] for k in ('position', 'velocity', 'acceleration'))
    for q in range(1, P.shape[1] - j0):
        t = th + q*Ts
        b, a = ref.at(t, -1e-9), None
        got = [P[:, j0+q], V[:, j0+q], A[:, j0+q]]
        ok = all(np.abs(g - x).max() <= 1e-4 for g, x in zip(got, b))
        if not ok and isinstance(ref, Ref):
            a = ref.at(t, 1e-9)
            ok = all(min(np.abs(g - x).max(), np.abs(g - y).max()) <= 1e-4 for g, x, y in zip(got, a, b))
        if not R.check(ok, 'obstacle-motion', lambda: '%s at t=%.4f: recorded position %s velocity %s acceleration %s, described %s %s %s' % (
                (what, t) + tuple(np.round(z, 5) for z in got + list(b)))):
            return False
    return True


def env_run(spec, R):
    dim, Ts = spec['dim'], spec['Ts']
    shared = initial(spec['obstacles'][0]) if spec.get('shared') else None
    obs = [make(o, shared if shared is not None else initial(o), dim) for o in spec['obstacles']]
    room = {'shape': Square(10.)} if dim == 2 else {'shape': Cube(10.)}
    env = Environment(room=room, obstacles=obs)
    refs = [(ModelRef if o.get('model') else Ref)(o, dim) for o in spec['obstacles']]
    oref = [[float(o.get('ori', 0.)), float(o.get('omega', 0.))] for o in spec['obstacles']]
    envs = [env]
    t, n = 0., 0
    for op in spec['ops']:
        if op['op'] == 'copy':
            # who plans with a copy sees the obstacles where they are
            c = env.copy()
            R.fault('environment_copied')
            for a, b in zip(env.obstacles, c.obstacles):
                R.check(all(np.allclose(a.signals[k][..., -1], b.signals[k][..., -1]) for k in ('time', 'position', 'velocity', 'acceleration')), 'copy-elsewhere',
                        lambda: 't=%.3f: obstacle at %s, in the copy of its environment at %s' % (t, a.signals['position'][:, -1], b.signals['position'][:, -1]))
            if len(envs) < 2:
                envs.append(c)
            continue
        if op['op'] == 'measure':
            R.fault('measured_state')
            for e in envs:
                e.obstacles[op['obstacle']].set_state({k: (list(v) if isinstance(v, list) else v) for k, v in op['state'].items()})
            refs[op['obstacle']].measured(t, op['state'])
            oref[op['obstacle']] = [float(op['state'].get('orientation', 0.)), 0.]
            continue
        m = op['n']
        before = [[o.signals['position'].shape[1]-1 for o in e.obstacles] for e in envs]
        for e in envs:
            e.simulate(m*Ts, Ts)
        irregular = m != spec['ops'][0].get('n')
        if irregular:
            R.fault('irregular_slice')
        for i, (ref, o) in enumerate(zip(refs, spec['obstacles'])):
            import copy as cp
            for q, e in enumerate(envs):
                ob = e.obstacles[i]
                R.check(ob.signals['position'].shape[1] - 1 - before[q][i] == m, 'obstacle-samples', lambda: '%d samples recorded, %d simulated' % (ob.signals['position'].shape[1] - 1 - before[q][i], m))
                if not getattr(ref, 'off', False) and not compare(R, ob, cp.deepcopy(ref), t, before[q][i], Ts, 'obstacle %d%s' % (i, ' in the copy' if q else '')):
                    raise Stop()
                if dim == 2:
                    th = oref[i][0] + m*Ts*oref[i][1]
                    R.check(abs(float(ob.signals['orientation'][0, -1]) - th) < 1e-9*(10+n), 'obstacle-rotation', lambda: 'orientation %r, described %r' % (ob.signals['orientation'][0, -1], th))
            if isinstance(ref, ModelRef):
                ref.at(t + m*Ts, 0)
            oref[i][0] += m*Ts*oref[i][1]
            R.state('model' if o.get('model') else 'events' if o.get('traj') else 'const', dim, 'omega' in o, irregular)
        t = (n + m)*Ts
        n += m
        R.simtime += m*Ts
        R.reached = True
        R.log('env', t, *[o.signals['position'][:, -1] for o in env.obstacles])


def bounce_run(spec, R):
    Ts = spec['Ts']
    room = {'shape': build.shape(spec['room']), 'position': list(spec['room']['pos'])}
    o = Obstacle({'position': list(spec['pos'])}, shape=build.shape(spec['shape']),
                 simulation={'trajectories': {'velocity': {'time': [0.], 'values': [list(spec['vel'])]}}}, options={'bounce': True})
    env = Environment(room=room, obstacles=[o])
    half = np.array([spec['shape']['r']]*2 if spec['shape']['k'] == 'circle' else [.5*spec['shape']['w'], .5*spec['shape']['h']])
    lim = .5*np.array([spec['room']['w'], spec['room']['h']]) - half
    c = np.array(spec['room']['pos'])
    sp = float(np.linalg.norm(spec['vel']))
    big = 0
    t = 0.
    with quiet():
        for op in spec['ops']:
            env.simulate(op['n']*Ts, Ts)
            big = max(big, op['n'])
            t += op['n']*Ts
            x = o.signals['position'][:, -1]
            v = o.signals['velocity'][:, -1]
            out = float((np.abs(x - c) - lim).max())
            R.check(out <= sp*big*Ts + 1e-6, 'bouncing-obstacle-escapes', lambda: 't=%.2f: obstacle at %s with velocity %s is %.3f out of the room, it moves %.3f at most between two checks' % (t, np.round(x, 3), np.round(v, 3), out, sp*big*Ts))
            R.check(abs(np.linalg.norm(v) - sp) < 1e-5, 'bouncing-obstacle-speed', lambda: 't=%.2f: speed %.5f, was %.5f' % (t, np.linalg.norm(v), sp))
            R.log('bounce', x, v)
            R.simtime += op['n']*Ts
            R.reached = True
            if R.violations:
                raise Stop()
    R.state('bounce', spec['shape']['k'], len({op['n'] for op in spec['ops']}) > 1)


class Watch(Observer):
    def start(self, L):
        dim = len(L.w['obstacles'][0]['pos'])
        self.refs = [Ref(o, dim) for o in L.w['obstacles']]

    def after_simulate(self, L):
        R = L.R
        t = float(L.vs[0].signals['time'][0, -1])
        envs = [L.env] + ([p.environment for p in L.pr.problems] if L.distributed() else [])
        for i, ref in enumerate(self.refs):
            b, a = ref.at(t, -1e-9), ref.at(t, 1e-9)
            for q, e in enumerate(envs):
                s = e.obstacles[i].signals
                name = 'agent %d' % (q-1) if q else 'the environment'
                if not R.check(abs(float(s['time'][-1]) - t) < 1e-6, 'obstacle-time', lambda: 'step %d: obstacle %d in %s is at time %.4f, the vehicles are at %.4f' % (L.k, i, name, s['time'][-1], t)):
                    raise Stop()
                for key, y, x in zip(('position', 'velocity'), a, b):
                    g = s[key][:, -1]
                    if not R.check(min(np.abs(g-x).max(), np.abs(g-y).max()) < 1e-4, 'obstacle-motion', lambda: 'step %d t=%.3f: obstacle %d in %s has %s %s, described %s' % (L.k, t, i, name, key, g, x)):
                        raise Stop()
        R.state('loop', L.w['problem']['kind'], any('traj' in o for o in L.w['obstacles']))
        R.probe('closed_loop_step')


def run(spec, R):
    if spec['mode'] == 'env':
        env_run(spec, R)
    elif spec['mode'] == 'bounce':
        bounce_run(spec, R)
    else:
        Loop(spec, R, [Watch()]).run()
