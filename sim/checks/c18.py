"""C18: looking at a run does not change it, and what the figures show is what
was recorded.

Every scenario is simulated twice, once unwatched and once with figures open
(and with figures made, animated and looked back at along the way).  Both must
record the same; and every figure must show the room, the obstacles, the
vehicles, the plan in force, its knots and the prediction, and the history up
to the instant looked at - no more and no less."""
from ..loop import *
from .. import scen, models
from ..core import Rec
from . import c10, c13
from .c10 import json_copy, alone, compare

RUNS = {'quick': 60, 'thorough': 900}
CPU = 200
MIN_S = 45
SHRINK_LISTS = ('looks', 'after', 'events', 'slices')
SHRINK_INTS = {'steps': 1}
RULE = 'non-trivial: at least one figure was compared with the record; distinct: different event log'
STATE_MEASURE = 'vehicle type x problem kind x kind of figure x opened before, during or after the run x looked at: last instant, index, time, movie'
REAL = ['PlotLayer', 'init_plot / update_plot / draw of vehicles, fleets, environments, obstacles, shapes and problems', 'matplotlib artists (lines, collections)',
        'Simulator', 'Deployer', 'Problem and its subclasses', 'Vehicle', 'Environment', 'ADMM and dual decomposition', 'CasADi+IPOPT']
STUB = ['screen (Agg canvas; rendering itself replaced by reading the artists)', 'clock (virtual)', 'scheduler of update instants (simulated)',
        'random numbers (seeded)', 'solver status and iterate (on injected faults)']
ASSUMPTIONS = ['2-D bodies are judged by their outlines, of other vehicles than plain shapes only that what is drawn is where the vehicle is; 3-D bodies are not judged',
               'the order, colours and styles of what is drawn are not judged']

KINDS = [('holo', 34), ('h1d', 6), ('h3d', 5), ('dubins', 10), ('quad', 7), ('bike', 3), ('agv', 2), ('orient', 3), ('squad3', 3), ('fleet', 9), ('formation', 8), ('rendezvous', 4), ('central', 4), ('dd', 3), ('scheduler', 14)]
TOL = 1e-9


def gen(r, i, tier):
    k = scen.pick(r, KINDS)
    if k == 'scheduler':
        s = c13.gen(r, i, tier)
        s['kind'] = k
        s['steps'] = min(s['steps'], r.choice([6, 15, 15]))
        return looks(r, s)
    s = scen.scenario(r, k if k != 'dd' else 'formation', push=.25, solver=.25, disturb=.2, ideal=.15, delay=.1)
    s['kind'] = k
    if k == 'dd':
        s['world']['problem']['kind'] = 'formation_dd'
    s['steps'] = min(s['steps'], r.randint(3, 7))
    w = s['world']
    if k == 'holo' and r.random() < .4:
        scen.change_of_mind(r, s)
    for o in w['obstacles']:
        if r.random() < .15:
            o.setdefault('options', {})['draw'] = False
        if r.random() < .2:
            o.setdefault('options', {})['bounce'] = True
    if k in ('formation', 'rendezvous') and r.random() < .4:
        w['problem']['options']['max_iter_per_update'] = r.choice([2, 3])
    if k in ('formation', 'rendezvous', 'dd'):
        w['problem']['options']['init_iter'] = r.choice([0, 2, 5])
    return looks(r, s)


def looks(r, s):
    s['np_seed'] = r.randrange(2**31)
    s['looks'] = [look(r, s) for _ in range(r.randint(1, 5))]
    s['after'] = []
    for _ in range(r.randint(1, 3)):
        a = {'look': look(r, s)}
        c = r.random()
        if c < .4:
            a['index'] = r.choice([0., 1.] + 4*[round(r.random(), 4)])
        elif c < .75:
            a['time'] = r.choice([0., 1.] + 4*[round(r.random(), 4)])
            a['off'] = round(r.uniform(-.45, .45), 2)
        else:
            a['movie'] = r.choice([2, 3, 4, 5, 10])
        s['after'].append(a)
    return s


def look(r, s):
    w = s['world']
    c = r.random()
    l = {'who': 'problem', 'arg': 'scene', 'at': r.choice([-1, -1, 0, 1, 2])}
    if c < .4:
        return l
    if c < .5 and s['kind'] in ('formation', 'rendezvous', 'dd'):
        l['arg'] = 'residuals'
        return l
    if len(w['vehicles']) > 1 and c < .7:
        l['who'] = 'fleet'
    else:
        l['who'], l['i'] = 'vehicle', r.randrange(len(w['vehicles']))
    l['arg'] = r.choice(['state', 'input', 'input', 'pose', 'dinput'])
    l['knots'], l['prediction'] = r.random() < .6, r.random() < .5
    return l


# ------------------------------------------------------------ reading figures

def nonempty_lines(ax):
    out = []
    for l in ax.lines:
        D = np.array(l.get_data_3d() if hasattr(l, 'get_data_3d') else l.get_data(), dtype=float)
        if D.size:
            out.append(D)
    return out


def outlines(ax):
    out = []
    for c in ax.collections:
        ps = c.get_paths()
        if len(ps) and len(ps[0].vertices):
            out.append(np.array(ps[0].vertices, dtype=float))
    return out


def same_line(D, x):
    x = np.atleast_2d(np.asarray(x, dtype=float))
    n = min(len(D), len(x))
    return D.shape[1] == x.shape[1] and n >= 2 and np.allclose(D[:n], x[:n], rtol=0, atol=TOL, equal_nan=True)


def same_body(V, s, pos, th):
    """the drawn outline V is shape s at that place"""
    P, rad = models.place(s, pos, th)
    if rad == 0.:
        near = lambda A, B: np.all(np.min(np.hypot(*(A[:, None, :] - B[None, :, :]).transpose(2, 0, 1)), 1) < 1e-7)
        return near(V, P) and near(P, V)
    if len(P) == 1:
        c = V[:-1] if np.allclose(V[0], V[-1]) else V
        return len(c) >= 8 and np.allclose(np.hypot(*(V - P[0]).T), rad, atol=1e-7) and np.allclose(c.mean(0), P[0], atol=.02*rad)
    d = [models._seg_pt(P[0], P[1], p) for p in V]
    return np.allclose(d, rad, atol=1e-6)


class Looks(Observer):

    def __init__(self, spec):
        self.spec = spec
        self.figs = []

    def start(self, L):
        plt.close('all')
        self.plans = []         # per update: (first sample, per vehicle (plan, at knots, predicted))
        self.n_it = []          # iterations done by then
        self.it = 0
        if L.distributed():
            real = L.pr.dual_update if hasattr(L.pr, 'dual_update') else None
            if real:
                def dual(*a, **kw):
                    res = real(*a, **kw)
                    self.it = len(L.pr.residuals['primal'])
                    return res
                L.pr.dual_update = dual
        self.open(L, -1)

    def target(self, L, l):
        if l['who'] == 'problem':
            return L.pr
        if l['who'] == 'fleet':
            return L.pr.fleet
        return L.vs[l['i'] % len(L.vs)]

    def args(self, L, l):
        if l['who'] == 'problem':
            return l['arg'], {}
        arg = l['arg']
        v0 = L.vs[0]
        if hasattr(v0, 'trajectories') and any(arg not in v.trajectories for v in L.vs) or (not hasattr(v0, 'trajectories') and arg == 'dinput'):
            arg = 'state'
        kw = {}
        if l.get('knots'):
            kw['knots'] = True
        if l.get('prediction'):
            kw['prediction'] = True
        return arg, kw

    def open(self, L, k):
        for l in self.spec['looks']:
            if l['at'] == k:
                arg, kw = self.args(L, l)
                L.R.fault('figure_opened')
                self.figs.append((l, arg, self.target(L, l).plot(arg, **kw)))

    def after_update(self, L):
        at = L.vs[0].signals['time'].shape[1]-1 if hasattr(L.vs[0], 'signals') else 0
        self.plans.append((at, [(copy.deepcopy(v.trajectories), copy.deepcopy(v.trajectories_kn), copy.deepcopy(v.prediction)) for v in L.vs], self.way(L)))

    def way(self, L):
        if not hasattr(L.pr, 'frames'):
            return None
        return [({'k': 'rect', 'w': f.border['shape'].width, 'h': f.border['shape'].height}, list(f.border['position'])) for f in L.pr.frames], \
            np.array([list(x) for x in L.pr.global_path[:-1]], dtype=float).T

    def after_simulate(self, L):
        self.n_it.append(len(L.pr.residuals['primal']) if hasattr(L.pr, 'residuals') else 0)
        for l, arg, p in self.figs:
            self.judge(L, l, arg, p, None, 'last')
        n = len(self.figs)
        self.open(L, L.k)
        for l, arg, p in self.figs[n:]:
            self.judge(L, l, arg, p, None, 'last')

    # ---- afterwards
    def end(self, L):
        if not self.plans or not hasattr(L.vs[0], 'signals'):
            return
        N = L.vs[0].signals['time'].shape[1] - 1
        if L.overrun:
            # the samples the simulator counts, as when the motion had ended here
            T = np.ravel(L.sim.time)
        else:
            T = np.ravel(L.sim.time)
        t = np.ravel(L.vs[0].signals['time'])
        L.R.check(len(T) == len(t) and np.allclose(T, t, atol=1e-6), 'time-axis', lambda: 'the simulator counts %d samples until %s, the record has %d until %s' % (len(T), T[-1], len(t), t[-1]))
        for a in self.spec['after']:
            l = dict(a['look'], at=None)
            arg, kw = self.args(L, l)
            obj = self.target(L, l)
            if 'index' in a:
                i = int(a['index']*N)
                p = obj.plot(arg, index=i, **kw)
                self.judge(L, l, arg, p, i, 'index')
            elif 'time' in a:
                i = int(a['time']*N)
                p = obj.plot(arg, time=i*L.Ts + a.get('off', 0.)*L.Ts if 0 < i < N else i*L.Ts, **kw)
                self.judge(L, l, arg, p, i, 'time')
            else:
                shown = []
                real = obj.update_plots

                def up(plots=None, t=-1):
                    real(plots, t)
                    shown.append(t)
                    self.judge(L, l, arg, plots[0] if isinstance(plots, list) else plots, t, 'movie')
                nof = min(a['movie'], N)
                if nof < 2:
                    continue
                obj.update_plots = up
                try:
                    obj.plot_movie(arg, number_of_frames=nof, **kw)
                finally:
                    del obj.update_plots
                L.R.fault('movie_played')
                L.R.check(len(shown) >= nof and shown[0] == 0 and all(x <= y for x, y in zip(shown, shown[1:])), 'movie-frames',
                          lambda: 'a movie of %d frames of %d samples showed the samples %s' % (nof, N+1, shown))
        plt.close('all')

    # ---- the oracle
    def judge(self, L, l, arg, plot, i, how):
        R = L.R
        fig = plot.get('figure')
        what = '%s %s at %s %s' % (l['who'], arg, how, '' if i is None else i)
        if not R.check(fig is not None, 'no-figure', what + ': no figure'):
            return
        R.reached = True
        R.state(L.w['vehicles'][0]['type'], self.spec['kind'], l['who'], arg, 'before' if l['at'] == -1 else 'during' if l['at'] is not None else 'after', how)
        N = L.vs[0].signals['time'].shape[1] - 1
        j = N if i is None else i
        plan = self.plans[0]
        for p in self.plans:
            if p[0] <= j and (p[0] < N or p is self.plans[0]):
                plan = p
        if arg == 'residuals':
            self.residuals(L, what, fig, i)
        elif arg == 'scene':
            self.scene(L, what, fig, j, plan)
        else:
            self.signal(L, l, arg, what, fig, j, plan)

    def signal(self, L, l, arg, what, fig, j, plan):
        R = L.R
        who = range(len(L.vs)) if l['who'] == 'fleet' else [l['i'] % len(L.vs)]
        want = []
        for q in who:
            v = L.vs[q]
            tr, kn, pred = plan[1][q]
            for c in range(v.signals[arg].shape[0]):
                t = np.ravel(v.signals['time'])
                want.append((c, 'history', q, np.vstack((t[:j+1], v.signals[arg][c, :j+1]))))
                want.append((c, 'plan', q, np.vstack((np.ravel(tr['time']), tr[arg][c]))))
                if l.get('knots'):
                    want.append((c, 'knots', q, np.vstack((np.ravel(kn['time']), kn[arg][c]))))
                if l.get('prediction'):
                    want.append((c, 'prediction', q, np.array([[np.ravel(tr['time'])[0]], [np.ravel(pred.get(arg, tr[arg][:, 0]))[c]]])))
        have = {c: nonempty_lines(ax) for c, ax in enumerate(fig.axes)}
        # vehicles of one type share axes; each type has its own
        types = []
        for q in who:
            if type(L.vs[q]).__name__ not in types:
                types.append(type(L.vs[q]).__name__)
        off, base = 0, {}
        for ty in types:
            base[ty] = off
            off += next(L.vs[q].signals[arg].shape[0] for q in who if type(L.vs[q]).__name__ == ty)
        R.check(len(fig.axes) == off, 'axes', '%s: %d axes for %d components' % (what, len(fig.axes), off))
        for c, kind, q, x in want:
            lines = have.get(base[type(L.vs[q]).__name__] + c, [])
            R.check(any(same_line(D, x) for D in lines), kind, lambda: '%s: the %s of component %d of vehicle %d is not shown (%s); there are lines of %s points' % (
                what, kind, c, q, desc(x), [desc(D) for D in lines]))
        n = sum(len(x) for x in have.values())
        R.check(n <= len(want), 'extra', '%s: %d lines, %d to show' % (what, n, len(want)))

    def scene(self, L, what, fig, j, plan):
        R = L.R
        ax = fig.axes[0]
        lines = nonempty_lines(ax)
        for q, v in enumerate(L.vs):
            for kind, x in (('plan', plan[1][q][0]['pose']), ('history', v.signals['pose'][:, :j+1])):
                R.check(any(same_line(D, x[:len(D)]) for D in lines), 'scene-' + kind, lambda: '%s: the %s of vehicle %d is not shown (%s); there are %s' % (what, kind, q, desc(x), [desc(D) for D in lines]))
        if L.env.n_dim != 2:
            R.probe('bodies_not_judged')
            return
        V = outlines(ax)
        used = set()
        for n, (o, d) in enumerate(zip(L.env.obstacles, L.w['obstacles'])):
            if (d.get('options') or {}).get('draw') is False:
                continue
            pos, th = o.signals['position'][:, j], o.signals['orientation'][0, j]
            m = [q for q, x in enumerate(V) if q not in used and same_body(x, d['shape'], pos, th)]
            if R.check(bool(m), 'scene-obstacle', lambda: '%s: obstacle %d (%s) is not shown at %s, %s' % (what, n, d['shape']['k'], pos, th)):
                used.add(m[0])
        for q, v in enumerate(L.vs):
            d = L.w['vehicles'][q]
            pose = v.signals['pose'][:, j]
            if d['type'] in ('Holonomic', 'Dubins', 'HolonomicOrient', 'Holonomic1D'):
                m = [y for y, x in enumerate(V) if y not in used and same_body(x, models.default_shape(d), pose[:2], pose[2])]
                if R.check(bool(m), 'scene-vehicle', lambda: '%s: vehicle %d is not shown at %s' % (what, q, pose)):
                    used.add(m[0])
        if plan[2] is not None:
            for n, (d, pos) in enumerate(plan[2][0]):
                m = [y for y, x in enumerate(V) if y not in used and same_body(x, d, pos, 0.)]
                if R.check(bool(m), 'scene-frame', lambda: '%s: frame %d (%s x %s around %s) is not shown' % (what, n, d['w'], d['h'], pos)):
                    used.add(m[0])
            x = plan[2][1]
            R.check(any(same_line(D, x) for D in lines), 'scene-way', lambda: '%s: the way is not shown (%s); there are %s' % (what, desc(x), [desc(D) for D in lines]))
        # what else is drawn belongs to some vehicle
        for y, x in enumerate(V):
            if y not in used:
                R.check(any(np.hypot(*(x.mean(0) - v.signals['pose'][:2, j])) < 1. for v in L.vs) and not any(
                    d['type'] in ('Holonomic', 'HolonomicOrient', 'Holonomic1D') for d in L.w['vehicles']),
                    'scene-extra', lambda: '%s: something is shown at %s that is not there' % (what, x.mean(0)))
        # the whole room is in view
        P, _ = models.body(L.w['room'])
        P = P + np.asarray(L.w['room'].get('pos', [0.]*P.shape[1]), dtype=float)
        lo, hi = np.array([ax.get_xlim()[0], ax.get_ylim()[0]]), np.array([ax.get_xlim()[1], ax.get_ylim()[1]])
        R.check(np.all(lo <= P.min(0) + 1e-6) and np.all(P.max(0) <= hi + 1e-6), 'scene-view', lambda: '%s: the view %s..%s does not cover the room %s..%s' % (what, lo, hi, P.min(0), P.max(0)))

    def residuals(self, L, what, fig, i):
        res = list(L.pr.residuals.values())
        n = len(res[0])
        if i is not None:
            k = max([0] + [q for q, p in enumerate(self.plans) if p[0] <= i and q < len(self.n_it)])
            n = self.n_it[k]
        L.R.check(len(fig.axes) == len(res), 'axes', '%s: %d axes for %d residuals' % (what, len(fig.axes), len(res)))
        for ax, x in zip(fig.axes, res):
            with np.errstate(all='ignore'):
                want = np.vstack((np.arange(1, n+1), np.log10(x[:n])))
            lines = nonempty_lines(ax)
            L.R.check(any(same_line(D, want) for D in lines), 'residuals', lambda: '%s: %s is not shown; there is %s' % (what, desc(want), [desc(D) for D in lines]))


def desc(x):
    x = np.atleast_2d(x)
    return '%d points %s..%s' % (x.shape[1], np.round(x[:2, 0], 4).tolist() if x.shape[1] else '', np.round(x[:2, -1], 4).tolist() if x.shape[1] else '')


class Whole(Observer):
    """the whole record, after everything was looked at"""

    def __init__(self, T):
        self.T = T

    def end(self, L):
        if hasattr(L.vs[0], 'signals'):
            self.T.rows.append(('record', L.k, [np.array(v.signals[q]) for v in L.vs for q in sorted(v.signals)] +
                                [np.array(o.signals[q]) for o in L.env.obstacles for q in sorted(o.signals)],
                                [np.array(v.trajectories[q]) for v in L.vs for q in sorted(v.trajectories)]))


def blind():
    """nothing is rendered"""
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    FigureCanvasAgg.draw = lambda self, *a, **k: None


def go(s, R, obs):
    np.random.seed(s['np_seed'])
    CLOCK.now = 0.
    T = c10.Tape()
    with quiet():
        Loop(json_copy(s), R, [T] + obs + [Whole(T)]).run()
    return T.rows


def run(spec, R):
    blind()
    ref = alone(lambda: go(spec, Rec(), []))
    if ref[0] == 'dead':
        R.probe('reference_died')
        return
    try:
        rows = go(spec, R, [Looks(spec)])
    finally:
        plt.close('all')
    if not R.check(ref[0] == 'ok', 'other-outcome', lambda: 'unwatched %s, watched it runs' % (ref[1:3],)):
        return
    compare(R, 'the watched run', ref[1], rows, 'looking-changes')
