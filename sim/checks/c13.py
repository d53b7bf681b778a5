"""C13: a vehicle sent through a building gets there."""
from .. import scen, models, gen as G
from ..loop import *
from .. import oracles
import heapq
import math

RUNS = {'quick': 70, 'thorough': 900}
CPU = 200
MIN_S = 60
SHRINK_LISTS = ('events', 'slices')
SHRINK_INTS = {'steps': 3}
RULE = 'non-trivial: at least five plans of a run were judged against the whole building; distinct: different event log'
STATE_MEASURE = 'kind of frames x frames at once x duration free or fixed x what changed (frame, obstacles) x fault at this update'
REAL = ['Simulator', 'Deployer', 'SchedulerProblem, MultiFrameProblem, Point2point', 'frames', 'grid and A* search', 'Environment and obstacles', 'Holonomic model', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of update instants', 'random numbers (seeded)', 'solver status and iterate (on injected faults)']
ASSUMPTIONS = ['start and goal are in free cells and a path of free cells joins them', 'the vehicle fits between obstacles the grid leaves passages for']


def boxes(w, infl=0.):
    out = []
    for o in w['obstacles']:
        if moving(o):
            continue
        s = o['shape']
        a, b = (s['r'], s['r']) if s['k'] == 'circle' else (s['w']/2., s.get('h', s['w'])/2.)
        out.append((o['pos'][0]-a-infl, o['pos'][1]-b-infl, o['pos'][0]+a+infl, o['pos'][1]+b+infl))
    return out


def moving(o):
    t = o.get('traj') or {}
    return any(abs(q) > 0 for k in ('velocity', 'acceleration') for v in t.get(k, {}).get('values', []) for q in v)


class Cells:
    """the grid as the harness sees it"""

    def __init__(self, w, infl):
        self.n = w['problem']['grid']['n']
        rm = w['room']
        self.W, self.H = rm['w'], rm.get('h', rm['w'])
        self.p = rm.get('pos', [0., 0.])
        self.cw, self.ch = self.W/self.n[0], self.H/self.n[1]
        B = boxes(w, infl)
        self.busy = set()
        e = 1e-3
        for i in range(self.n[0]):
            for j in range(self.n[1]):
                x, y = self.centre((i, j))
                a = (x-self.cw/2., y-self.ch/2., x+self.cw/2., y+self.ch/2.)
                if any(a[0] < b[2]-e and a[2] > b[0]+e and a[1] < b[3]-e and a[3] > b[1]+e for b in B):
                    self.busy.add((i, j))

    def centre(self, c):
        return self.p[0]-self.W/2.+(c[0]+.5)*self.cw, self.p[1]-self.H/2.+(c[1]+.5)*self.ch

    def free(self, c):
        return 0 <= c[0] < self.n[0] and 0 <= c[1] < self.n[1] and c not in self.busy

    def cell(self, x):
        return (min(self.n[0]-1, max(0, int(round((x[0]-self.p[0]+self.W/2.)/self.cw-.5)))),
                min(self.n[1]-1, max(0, int(round((x[1]-self.p[1]+self.H/2.)/self.ch-.5)))))

    def next(self, c):
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1):
                if (dx or dy) and self.free((c[0]+dx, c[1]+dy)) and self.free((c[0]+dx, c[1])) and self.free((c[0], c[1]+dy)):
                    yield (c[0]+dx, c[1]+dy), math.hypot(dx*self.cw, dy*self.ch)

    def dist(self, a, b):
        """length of the shortest way, None if there is none"""
        if not (self.free(a) and self.free(b)):
            return None
        D, q = {a: 0.}, [(0., a)]
        while q:
            d, c = heapq.heappop(q)
            if c == b:
                return d
            if d > D[c]+1e-12:
                continue
            for m, l in self.next(c):
                if d+l < D.get(m, 1e9)-1e-12:
                    D[m] = d+l
                    heapq.heappush(q, (d+l, m))
        return None


def gen(r, i, tier):
    while True:
        s = draw(r, tier)
        if s:
            return s


def draw(r, tier):
    W = r.choice([10., 10., 12., 8.])
    H = r.choice([W, W, 10., 8.])
    pos = r.choice([[W/2., H/2.], [0., 0.], [1., -2.]])
    rad = round(r.uniform(.15, .35), 3)
    n = [r.choice([8, 10, 12, 14]), r.choice([8, 10, 12, 14])]
    if W == H and r.random() < .5:
        n[1] = n[0]
    if 2.*rad >= min(W/n[0], H/n[1]):
        return None
    v = {'type': 'Holonomic', 'bounds': {'vmin': -.8, 'vmax': .8, 'amin': -1.5, 'amax': 1.5}, 'options': {}}
    if r.random() < .75:
        v['shape'] = {'k': 'circle', 'r': rad}
        size = rad
    else:
        v['shape'] = {'k': 'rect', 'w': rad, 'h': round(rad*r.uniform(.5, 1.), 3)}
        size = rad
    grid = {'n': n}
    if r.random() < .85:
        grid['size'] = size
    lim = (pos[0]-W/2., pos[1]-H/2., pos[0]+W/2., pos[1]+H/2.)

    def point(m):
        return [round(r.uniform(lim[0]+m, lim[2]-m), 3), round(r.uniform(lim[1]+m, lim[3]-m), 3)]
    obs = []
    for _ in range(r.choice([1, 2, 3, 3, 4, 5, 6])):
        k = r.random()
        if k < .25:
            sh = {'k': 'circle', 'r': round(r.uniform(.3, .9), 3)}
        elif k < .5:        # a wall, thinner than a cell, perhaps up to the side
            a, b = round(r.uniform(.1, .4), 3), round(r.uniform(2., 6.), 3)
            sh = {'k': 'rect', 'w': a, 'h': b} if r.random() < .5 else {'k': 'rect', 'w': b, 'h': a}
        else:
            sh = {'k': 'rect', 'w': round(r.uniform(.4, 3.), 3), 'h': round(r.uniform(.4, 3.), 3)}
        obs.append({'pos': point(.2), 'shape': sh})
    w = {'vehicles': [v], 'room': {'k': 'rect', 'w': W, 'h': H, 'pos': pos}, 'obstacles': obs,
         'problem': {'kind': 'scheduler', 'freeT': r.random() < .7, 'grid': grid, 'options': {}}}
    for _ in range(20):
        a, b = point(.3+rad), point(.3+rad)
        if math.hypot(a[0]-b[0], a[1]-b[1]) > .5*min(W, H):
            break
    v['x0'], v['xT'] = a, b
    C = Cells(w, size*1.05)
    d = C.dist(C.cell(a), C.cell(b))
    # both with room around them
    for x in (a, b):
        if any(q[0] < x[0] < q[2] and q[1] < x[1] < q[3] for q in boxes(w, 1.25*size)):
            return None
    if d is None or d < 1.5:
        return None
    o = w['problem']['options']
    o['frame_type'] = 'corridor' if r.random() < .8 else 'shift'
    if o['frame_type'] == 'corridor':
        if r.random() < .7:
            o['scale_up_fine'] = r.random() < .7
        if r.random() < .4:
            o['l_shape'] = True
    else:
        if r.random() < .7:
            o['frame_size'] = r.choice([3., 4., 5.])
    if w['problem']['freeT'] and r.random() < .5:
        o['n_frames'] = r.choice([2, 2, 3])
    if not w['problem']['freeT']:
        o['horizon_time'] = 10.
    m = r.choice([0, 0, 0, 1, 1, 2])
    for _ in range(m):
        p = point(.8)
        sh = {'k': 'circle', 'r': round(r.uniform(.2, .4), 3)} if r.random() < .5 else {'k': 'rect', 'w': round(r.uniform(.3, 1.5), 3), 'h': round(r.uniform(.3, .8), 3)}
        R_ = sh['r'] if sh['k'] == 'circle' else .5*math.hypot(sh['w'], sh['h'])
        if math.hypot(p[0]-a[0], p[1]-a[1]) < 1.+R_+size or math.hypot(p[0]-b[0], p[1]-b[1]) < 1.+R_+size:
            continue
        vel = [round(r.uniform(-.25, .25), 3) for _ in range(2)]
        t = {'velocity': {'time': [0.], 'values': [vel]}}
        if r.random() < .5:
            t1 = round(r.uniform(1., 8.), 2)
            t['velocity'] = {'time': [0., t1], 'values': [vel, [-q for q in vel]]}      # stops
            if r.random() < .4:
                t['velocity'] = {'time': [0., t1], 'values': [[0., 0.], vel]}           # starts to move
        if r.random() < .6:     # on its way to where the vehicle is going to be
            x = r.uniform(.15, .85)
            tc = x*d/.7
            q = [a[k]+x*(b[k]-a[k])+r.uniform(-.3, .3) for k in (0, 1)]
            vel = [round(z*r.choice([1., 1., 2.5]), 3) for z in vel]
            acc = [0., 0.]
            if r.random() < .5:
                acc = [round(2.*r.uniform(-3., 3.)/tc**2, 3) for _ in (0, 1)]
                if r.random() < .3:
                    vel = [0., 0.]
            if r.random() < .2:
                sh = {'k': 'rect', 'w': round(r.uniform(2., 6.), 3), 'h': round(r.uniform(.1, .4), 3)}
                if r.random() < .5:
                    sh = {'k': 'rect', 'w': sh['h'], 'h': sh['w']}
            p = [round(q[k]-vel[k]*tc-.5*acc[k]*tc**2, 3) for k in (0, 1)]
            R_ = sh['r'] if sh['k'] == 'circle' else .5*math.hypot(sh['w'], sh['h'])
            if math.hypot(p[0]-a[0], p[1]-a[1]) < .7+R_+size:
                continue
            t = {'velocity': {'time': [0.], 'values': [vel]}} if any(vel) or r.random() < .5 else {}
            if any(acc):
                t['acceleration'] = {'time': [0.], 'values': [acc]}
            if not any(vel+acc):
                continue
            obs.append({'pos': p, 'shape': sh, 'traj': t})
            continue
        obs.append({'pos': p, 'shape': sh, 'traj': t, 'options': {'bounce': True} if r.random() < .4 else {}})
    s = scen.scenario(r, 'holo', world=w, jitter=.5, horizon=0., timings=[(.02, 10), (.02, 10), (.05, 5), (.02, 15), (.1, 3)],
                      push=.3 if not m else 0., amp=.08, solver=.25, steps=None)
    s['length'] = round(d, 3)
    s['steps'] = int((3.*d/.8 + 12.)/s['Tu']) + 10
    s['slices'] = s['slices'] and (s['slices']*(1 + s['steps']//max(1, len(s['slices']))))[:s['steps']]
    s['calm'] = not m
    return s


class Path(Observer):
    """every global path: through free space, from here to there, not silly"""

    def start(self, L):
        gp = L.pr.global_planner
        real = gp.get_path
        self.size = L.w['problem']['grid'].get('size', 0.)
        self.C = Cells(L.w, self.size)
        stat = [(o['shape'], o['pos']) for o in L.w['obstacles'] if not moving(o)]

        def get_path(start=None, goal=None):
            R = L.R
            a = L.w['vehicles'][0]['x0'] if start is None else [float(q) for q in start]
            b = L.w['vehicles'][0]['xT'] if goal is None else [float(q) for q in goal]
            ca, cb = self.C.cell(a), self.C.cell(b)
            d = self.C.dist(ca, cb)
            try:
                P = real(start=start, goal=goal)
            except RuntimeError as e:
                R.check(d is None, 'no-path', lambda: 'no path found from %s to %s: "%s", though there is one of %.2f m' % (a, b, str(e)[:60], d))
                raise
            P = [list(map(float, q)) for q in P]
            R.log('path', P)
            if d is None:
                R.probe('path_from_occupied_cell')
                return P
            R.probe('path_judged')
            e = max(abs(P[0][q]-self.C.centre(ca)[q]) for q in (0, 1)), max(abs(P[-1][q]-self.C.centre(cb)[q]) for q in (0, 1))
            R.check(e[0] < 1e-6, 'path-ends', lambda: 'path from %s starts at %s' % (a, P[0]))
            R.check(e[1] < 1e-6, 'path-ends', lambda: 'path to %s ends at %s' % (b, P[-1]))
            l = 0.
            for p, q in zip(P, P[1:]):
                dx, dy = abs(q[0]-p[0])/self.C.cw, abs(q[1]-p[1])/self.C.ch
                R.check(max(dx, dy) < 1.0001 and max(dx, dy) > .9999, 'path-jump', lambda: 'path jumps from %s to %s' % (p, q))
                l += math.hypot(q[0]-p[0], q[1]-p[1])
                for f in np.linspace(0., 1., 9):
                    x = np.array([p[0]+f*(q[0]-p[0]), p[1]+f*(q[1]-p[1])])
                    c = min([models.clearance({'k': 'circle', 'r': 0.}, x, 0., sh, np.array(po, dtype=float), 0.) for sh, po in stat] or [9.])
                    R.check(c > self.size-2e-3 if self.size else c > -2e-3, 'path-collides', lambda: 'path from %s to %s passes %.3f m from an obstacle at %s (vehicle needs %.3f)' % (a, b, c, x, self.size))
            R.check(l <= math.sqrt(2.)*d+1e-6, 'path-silly', lambda: 'path of %.3f m where %.3f m would do' % (l, d))
            return [q for q in P]
        gp.get_path = get_path


class Way(Observer):
    """plans and motion, judged against the whole building; arrival"""
    TOL = 5e-3

    def start(self, L):
        self.d = L.w['vehicles'][0]
        self.sh = self.d['shape']
        self.stat = [o for o in L.w['obstacles'] if not moving(o)]
        self.mov = [(o, q) for o, q in zip(L.w['obstacles'], L.env.obstacles) if moving(o)]
        self.n = 1
        self.worked = self.astray = False

    def after_update(self, L):
        R, v = L.R, L.vs[0]
        self.good = L.ok() and not L.plan_exhausted(v)
        self.sig = [models.obstacle_now(q) if hasattr(q, 'signals') else None for _, q in self.mov]
        tr = v.trajectories
        if not self.good:
            R.probe('solve_not_successful')
            return
        self.worked = True
        R.probe('plan_judged')
        R.check(all(np.isfinite(tr[q]).all() for q in tr), 'plan-not-finite', 'plan contains non-finite values')
        X = tr['pose']
        n = X.shape[1]
        idx = sorted(set(range(0, n, max(1, n//60))) | {n-1})
        w = models.limit_violation(self.d, tr)
        R.check(w[0] <= 5e-3, 'plan-limit', lambda: 'step %d t=%.3f plan: %s' % (L.k, L.t, w[1]))
        worst = max((models.room_violation(L.w['room'], self.sh, X[:, k], 0.), k) for k in idx)
        R.check(worst[0] <= self.TOL, 'plan-room', lambda: 'step %d t=%.3f: plan leaves the building by %.4f, %d samples ahead' % (L.k, L.t, worst[0], worst[1]))
        for o in self.stat:
            c = min((models.clearance(self.sh, X[:, k], 0., o['shape'], np.array(o['pos'], dtype=float), 0.), k) for k in idx)
            R.check(c[0] >= -self.TOL, 'plan-obstacle', lambda: 'step %d t=%.3f: plan runs %.4f into the obstacle at %s, %d samples ahead' % (L.k, L.t, -c[0], o['pos'], c[1]))
        # what moves, where the frames the plan leads through know of it
        fr, T = L.pr.frames, np.cumsum(self.times(L))
        for (o, q), s0 in zip(self.mov, self.sig):
            for f, F in enumerate(fr[:len(T)]):
                if q not in F.moving_obstacles:
                    continue
                ks = [k for k in idx if (f == 0 or T[f-1]+1e-9 < k*L.Ts) and k*L.Ts < T[f]+1e-9]
                c = min([(models.clearance(self.sh, X[:, k], 0., o['shape'], models.predicted_obstacle(s0, k*L.Ts)[0], 0.), k) for k in ks] or [(9., 0)])
                R.check(c[0] >= -2.*self.TOL, 'plan-moving-obstacle', lambda: 'step %d t=%.3f: plan runs %.4f into the moving obstacle at %s, %d samples ahead (frame %d)' % (L.k, L.t, -c[0], s0['position'], c[1], f))
                if c[0] < .1:
                    R.probe('plan_close_to_moving_obstacle')
        self.joints(L, v)
        x0 = v.signals['state'][:, -1] if hasattr(v, 'signals') else np.array(self.d['x0'], dtype=float)
        e = np.abs(tr['state'][:, 0]-x0).max()
        # (planned from where it was an update ago)
        pushed = any(q['kind'] == 'push' and L.k-2 <= q['k'] <= L.k for q in L.spec['events'])
        R.check(pushed or e < 2e-3, 'plan-start', lambda: 'step %d t=%.3f: plan starts %.4f m from where the vehicle is' % (L.k, L.t, e))
        o = L.w['problem']['options']
        R.state(o['frame_type'], o.get('n_frames', 1), L.w['problem']['freeT'], L.made, L.pr.cnt, len(L.pr.frames))

    def joints(self, L, v):
        """one smooth motion through all frames"""
        T, lp = self.times(L), L.pr.local_problem
        S = [lp.father.get_variables(v, 'splines_seg%d' % k) for k in range(len(T))]
        for k in range(len(T)-1):
            if min(T[k], T[k+1]) < .3:      # (what numbers that small are worth)
                continue
            L.R.probe('joint_judged')
            for d, tol in ((0, 1e-3), (1, 3e-3), (2, 3e-2)):
                e = max(abs(float(np.ravel(a.derivative(d)(1.))[0])/T[k]**d - float(np.ravel(b.derivative(d)(0.))[0])/T[k+1]**d) for a, b in zip(S[k], S[k+1]))
                L.R.check(e < tol, 'plan-joint', lambda: 'step %d t=%.3f: derivative %d jumps by %.4f where the plan goes from frame %d to the next (%s s)' % (L.k, L.t, d, e, k, T))

    def times(self, L):
        lp = L.pr.local_problem
        if not L.w['problem']['freeT']:
            return [lp.options['horizon_time']]
        return [float(np.ravel(lp.father.get_variables(lp, 'T%d' % k))[0]) for k in range(lp.n_frames)]

    def after_simulate(self, L):
        R, v = L.R, L.vs[0]
        n1 = v.signals['state'].shape[1]
        n0, self.n = self.n, n1
        if n1 > n0 and models.limit_violation(self.d, {q: v.signals[q][:, n0:n1] for q in v.signals if q in ('state', 'input', 'dinput', 'v_tot')})[0] > .01:
            self.astray = True      # after a solve that failed: no plan starts from here any more
        if n1 <= n0 or not self.good:
            return
        X = v.signals['pose'][:, n0:n1]
        for k in range(0, n1-n0, 2):
            for o in self.stat:
                c = models.clearance(self.sh, X[:, k], 0., o['shape'], np.array(o['pos'], dtype=float), 0.)
                R.check(c >= -self.TOL, 'driven-collision', lambda: 'step %d t=%.3f: %.4f into the obstacle at %s' % (L.k, L.t, -c, o['pos']))
            for (o, q), s0 in zip(self.mov, self.sig):
                now = models.obstacle_now(q, n0+k)
                p, _ = models.predicted_obstacle(s0, (k+1)*L.Ts)
                if np.abs(p-now['position']).max() > 2e-3:
                    R.probe('obstacle_not_as_predicted')
                    continue
                c = models.clearance(self.sh, X[:, k], 0., o['shape'], now['position'], 0.)
                R.check(c >= -2.*self.TOL, 'driven-collision', lambda: 'step %d t=%.3f: %.4f into the moving obstacle at %s' % (L.k, L.t, -c, now['position']))
                if c < .1:
                    R.probe('close_to_moving_obstacle')

    def end(self, L):
        R, v = L.R, L.vs[0]
        g = np.array(self.d['xT'], dtype=float)
        e = float(np.linalg.norm(v.signals['state'][:, -1]-g))
        if L.stopped:
            R.probe('arrived')
            if self.good:
                R.check(e < .03, 'arrival-false', lambda: 'said to have arrived %.3f m from the goal' % e)
        elif L.spec.get('calm') and not self.astray and L.k >= L.spec['steps']-1:
            R.violate('no-arrival', 'after %d updates (t=%.1f) for a way of %.1f m the vehicle is %.2f m from its goal' % (L.k, L.t, L.spec['length'], e))


def run(spec, R):
    Loop(spec, R, [Path(), Way(), oracles.History(), oracles.Integral()]).run()
