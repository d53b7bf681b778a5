"""C15: without obstacles in the way the plan is the best plan there is.

Oracle: a linear program over the same kind of curve, written from the
description of the task (limits, room, start, end), solved by HiGHS."""
from .. import scen, gen as G
from ..loop import *
from scipy.optimize import linprog
from scipy.interpolate import BSpline as _BS
import scipy.sparse as sp
import math

RUNS = {'quick': 90, 'thorough': 1200}
CPU = 160
MIN_S = 50
SHRINK_LISTS = ('events', 'slices')
SHRINK_INTS = {'steps': 2}
RULE = 'non-trivial: at least three plans were compared with the optimum of the linear program; distinct: different event log'
STATE_MEASURE = 'kind of problem x vehicles x dimension x limits that bind x options x fault at this update'
REAL = ['Simulator', 'Deployer', 'fixed-time, free-time and central formation problems', 'Fleet', 'Holonomic models', 'CasADi+IPOPT']
STUB = ['clock (virtual)', 'scheduler of update instants', 'random numbers (seeded)', 'solver status and iterate (on injected faults)']
ASSUMPTIONS = ['judged for vehicles with linear limits and no obstacle to avoid, where the best plan can be computed independently',
               'best among the curves of the vehicle\'s own spline basis whose control points meet the limits; plans up to 0.2 % (or .5 mm) worse are accepted']


def gen(r, i, tier):
    kind = r.choice(['holo']*5 + ['h1d']*2 + ['h3d'] + ['fleet']*3 + ['central']*4)
    free = r.random() < .35 and kind != 'central'
    if kind == 'holo':
        w = G.p2p2d(r, 'Holonomic', n_obs=0, freeT=free)
        v = w['vehicles'][0]
        v['bounds'], v['options'] = G.bounds(r, 'Holonomic'), {}
        v['shape'] = r.choice([{'k': 'circle', 'r': G.R3(r.uniform(.08, .25))}, {'k': 'rect', 'w': G.R3(r.uniform(.15, .4)), 'h': G.R3(r.uniform(.15, .4))}])
        if w['room']['k'] == 'regpoly' or r.random() < .5:
            w['room'] = {'k': 'square', 'w': 6., 'pos': w['room'].get('pos', [0., 0.])}
        if r.random() < .3:                 # a target close to the wall, or beyond it
            rm = w['room']
            v['xT'] = [round(rm.get('pos', [0., 0.])[0] + r.choice([-1, 1])*(rm['w']/2. - r.uniform(.25, .35)), 3), v['xT'][1]]
        if r.random() < .25:
            o = {'shape': {'k': 'circle', 'r': .3}, 'pos': [round(.5*(v['x0'][q] + v['xT'][q]), 3) for q in (0, 1)], 'options': {'avoid': False}}
            w['obstacles'].append(o)
        if r.random() < .3:
            v['knots'] = r.choice([6, 8, 12, 15])
    elif kind == 'h1d':
        w = G.p2p1d(r, freeT=free)
    elif kind == 'h3d':
        w = G.p2p3d(r, 'Holonomic3D', freeT=free, n_obs=0)
        w['vehicles'][0]['shape'] = {'k': 'sphere', 'r': G.R3(r.uniform(.1, .3))}
        if r.random() < .5:
            w['vehicles'][0]['xT'][r.randrange(3)] = round(2.5 - w['vehicles'][0]['shape']['r'] - .02, 3)
    elif kind == 'fleet':
        w = G.fleet2d(r, r.choice([2, 2, 3]), 'p2p', avoid=False, freeT=free)
        for v in w['vehicles']:             # paths of different length
            if r.random() < .6:
                q = r.uniform(.1, .7)
                v['xT'] = [round(a + q*(b - a), 3) for a, b in zip(v['x0'], v['xT'])]
    else:
        w = G.fleet2d(r, r.choice([2, 3, 3, 4]), 'formation_central')
        c, a = w['problem']['configuration'], w['vehicles'][0]['x0']
        w['problem']['interconnection'] = r.choice(['circular', 'circular', 'full'])
        for v, d in zip(w['vehicles'], c):
            v['x0'] = [round(a[q] - c[0][q] + d[q], 3) for q in (0, 1)]
            v['xT'] = [round(q + r.uniform(-.15, .15), 3) for q in v['xT']]
            v['bounds'] = G.bounds(r, 'Holonomic')
        if r.random() < .6:
            o = w['problem']['options']
            o['soft_formation'] = True
            o['soft_formation_weight'] = r.choice([10., 1., .4, .2])
            if r.random() < .4:
                o['max_formation_deviation'] = r.choice([.05, .2])
    o = w['problem']['options']
    if kind != 'h1d' and r.random() < .12:
        o['no_term_con_der'] = True
    elif not free and r.random() < .25:
        o['hard_term_con'] = True
    soft = kind != 'central' or o.get('soft_formation')
    s = scen.scenario(r, kind, world=w, jitter=.6, horizon=.6, push=.4 if soft else 0., amp=.06, solver=.25, retarget=.25,
                      disturb=.15 if soft else 0., ideal=.1, steps={'holo': 14, 'h1d': 14, 'h3d': 8, 'fleet': 8, 'central': 8}[kind])
    s['kind'] = kind
    return s


LIMITS = {'Holonomic': ('xy', .5, 1.), 'Holonomic1D': ('x', .5, 1.), 'Holonomic3D': ('xyz', .5, 1.)}


def limits(d):
    axes, v, a = LIMITS[d['type']]
    b = d.get('bounds') or {}
    out = []
    for x in axes:
        row = []
        for n, dv in (('v', v), ('a', a)):
            lo, hi = -dv, dv
            if d['type'] == 'Holonomic':
                lo, hi = b.get(n + x + 'min', lo), b.get(n + x + 'max', hi)
            row.append((b.get(n + 'min', lo), b.get(n + 'max', hi)))
        out.append(row)
    return out


class Curve:
    """matrices of a clamped spline basis on [0, 1]"""

    def __init__(self, knots, degree):
        self.kn, self.k = np.array(knots, dtype=float), degree
        self.m = len(self.kn) - degree - 1
        self.D, kn, M = [np.eye(self.m)], self.kn, np.eye(self.m)
        for q in range(degree, 0, -1):
            n = M.shape[0]
            d = np.zeros((n-1, n))
            for j in range(n-1):
                w = q/(kn[j+q+1] - kn[j+1])
                d[j, j], d[j, j+1] = -w, w
            M = d.dot(M)
            kn = kn[1:-1]
            self.D.append(M)
        # integral over [t, 1] of every basis function
        self.anti = [_BS(self.kn, e, degree).antiderivative() for e in np.eye(self.m)]

    def at(self, t, d=0):
        return np.array([_BS(self.kn, e, self.k).derivative(d)(t) if d else _BS(self.kn, e, self.k)(t) for e in np.eye(self.m)])

    def weight(self, t):
        return np.array([float(a(1.) - a(t)) for a in self.anti])


class Best(Observer):

    def start(self, L):
        w, self.n = L.w, 0
        self.p, self.o = w['problem'], w['problem']['options']
        self.free = bool(self.p.get('freeT'))
        self.start_t, self.clean = None, True
        self.curves = [Curve(v.basis.knots, v.degree) for v in L.vs]
        self.lim = [limits(d) for d in w['vehicles']]
        rm = w['room']
        self.dim = [len(l) for l in self.lim]
        half = {'square': lambda: [rm['w']/2.]*2, 'rect': lambda: [rm['w']/2., rm['h']/2.], 'cube': lambda: [rm['w']/2.]*3}[rm['k']]()
        pos = rm.get('pos', [0.]*len(half))
        self.room = []
        for d, n in zip(w['vehicles'], self.dim):
            s = d.get('shape') or ({'k': 'rect', 'w': d['width'], 'h': d['height']} if 'width' in d else {'k': 'circle', 'r': .1})
            ext = [s['w']/2., s['h']/2.] if s['k'] == 'rect' else [s['w']/2.]*2 if s['k'] == 'square' else [s['r']]*3
            self.room.append([(pos[q] - half[q] + ext[q], pos[q] + half[q] - ext[q]) for q in range(n)])
        self.links = None
        if self.p['kind'] == 'formation_central':
            N = len(L.vs)
            self.conf = np.array(self.p['configuration'], dtype=float)
            if self.p.get('interconnection') == 'full':
                self.links = [(a, b) for a in range(N) for b in range(a+1, N)]
            elif N == 2:
                self.links = [(0, 1)]
            else:                           # a chain: the ring without one link that the others imply
                self.links = [(0, 1), (0, N-1)] + [(a, a+1) for a in range(1, N-2)]

    # ------------------------------------------------------------ the program
    def program(self, L, T, t0, x0, u0, objective=True, tight=1e-6):
        """-> (optimum, point) or None"""
        c, A, b, Ae, be, off = [], [], [], [], [], 0
        blocks = {}
        n = sum(self.curves[v].m*self.dim[v]*(2 if objective else 1) for v in range(len(L.vs)))
        soft = self.links is not None and self.o.get('soft_formation')
        if soft:
            n += sum(self.curves[a].m*2 for a, _ in self.links)
        cost = np.zeros(n)
        bounds = [(None, None)]*n

        def row(M, at):
            R = sp.lil_matrix((M.shape[0], n))
            R[:, at:at+M.shape[1]] = M
            return R.tocsr()

        for v, cv in enumerate(self.curves):
            m, xT = cv.m, L.w['vehicles'][v]['xT']
            for q in range(self.dim[v]):
                blocks[v, q] = off
                lo, hi = self.room[v][q]
                for k in range(m):
                    bounds[off+k] = (lo + tight, hi - tight)
                for d, (lo, hi) in ((1, self.lim[v][q][0]), (2, self.lim[v][q][1])):
                    M, s = cv.D[d], T**d
                    A += [row(M, off), row(-M, off)]
                    b += [np.full(M.shape[0], hi*s*(1 - tight)), np.full(M.shape[0], -lo*s*(1 - tight))]
                Ae += [row(cv.at(t0)[None], off), row(cv.at(t0, 1)[None], off)]
                be += [[x0[v][q]], [T*u0[v][q]]]
                if not self.o.get('no_term_con_der'):
                    for d in range(1, cv.k+1):
                        Ae.append(row(cv.D[d][-1:], off))
                        be.append([0.])
                if self.free or self.o.get('hard_term_con'):
                    Ae.append(row(np.eye(m)[-1:], off))
                    be.append([xT[q]])
                if objective:
                    g = off + m
                    cost[g:g+m] = cv.weight(t0)
                    I = np.eye(m)
                    A += [row(I, off) - row(I, g), row(-I, off) - row(I, g)]
                    b += [np.full(m, xT[q]), np.full(m, -xT[q])]
                off += m*(2 if objective else 1)
        for a, e in self.links or []:
            m = self.curves[a].m
            I = np.eye(m)
            for q in range(2):
                D = row(I, blocks[a, q]) - row(I, blocks[e, q])
                d = np.full(m, self.conf[a][q] - self.conf[e][q])
                if soft:
                    A += [D - row(I, off), -D - row(I, off)]
                    b += [d, -d]
                    cost[off:off+m] = self.o['soft_formation_weight']*self.curves[a].weight(t0)
                    if 'max_formation_deviation' in self.o:
                        for k in range(m):
                            bounds[off+k] = (None, self.o['max_formation_deviation'])
                    off += m
                else:
                    A += [D, -D]            # to the accuracy the vehicles kept it so far
                    b += [d + 2e-5, 2e-5 - d]
        r = linprog(cost, A_ub=sp.vstack(A), b_ub=np.concatenate(b), A_eq=sp.vstack(Ae), b_eq=np.concatenate(be), bounds=bounds, method='highs')
        return r.fun if r.status == 0 else None

    def worth(self, L, coeffs, t0):
        """of a plan: how far it is from where it should be, on the whole"""
        s = 0.
        for v, cv in enumerate(self.curves):
            w = cv.weight(t0)
            for q in range(self.dim[v]):
                s += float(w.dot(np.abs(coeffs[v][q] - L.w['vehicles'][v]['xT'][q])))
        if self.links is not None and self.o.get('soft_formation'):
            for a, e in self.links:
                w = self.curves[a].weight(t0)
                for q in range(2):
                    s += self.o['soft_formation_weight']*float(w.dot(np.abs(coeffs[a][q] - coeffs[e][q] - self.conf[a][q] + self.conf[e][q])))
        return s

    def after_update(self, L):
        R = L.R
        if self.start_t is None:
            self.start_t = L.t
        x0 = [np.ravel(v.prediction['state'])[:d].copy() for v, d in zip(L.vs, self.dim)]
        u0 = [np.ravel(v.prediction['input'])[:d].copy() for v, d in zip(L.vs, self.dim)]
        faulty = any(e['kind'] == 'solver' for e in L.spec['events'] if e['k'] == L.k)
        coeffs = [np.array(L.father(v).get_variables(v, 'splines_seg0', spline=False), dtype=float).T for v in L.vs]
        tag = 't=%.4f update %d' % (L.t, L.k)
        if self.free:
            T = L.horizon(L.vs[0])
            if not L.ok() or T < .3:
                return
            # a hair less time must not do (the durations that do need not be an interval)
            q = .998*T - 1e-3
            if self.program(L, q, 0., x0, u0, objective=False) is not None:
                R.violate('slower', '%s: the plan takes %.4f s, there is one that takes %.4f s' % (tag, T, q))
            self.done(L, T)
            return
        T = float(self.o.get('horizon_time', 10.))
        Tk = T/L.vs[0].knot_intervals
        s = L.t - self.start_t
        t0 = max(0., s - int(round(s/Tk, 6))*Tk)/T
        soft = bool(self.o.get('soft_formation'))
        best = self.program(L, T, t0, x0, u0)
        R.log('best', best, L.ok())
        if best is None:
            R.probe('nothing_possible')
            return
        if not L.ok():
            if not faulty and (self.links is None or soft):
                # vehicles in strict formation are given more conditions than
                # unknowns: not judged
                R.violate('gives-up', '%s: no plan is found (%s) where there is one' % (tag, L.status()))
            return
        got = self.worth(L, coeffs, t0)
        R.check(got <= best + 2e-3*best + 5e-4, 'worse', lambda: '%s: the plan is worth %.6g, the best one %.6g' % (tag, got, best))
        self.done(L, best)

    def done(self, L, best):
        self.n += 1
        if self.n >= 3:
            L.R.reached = True
        L.R.probe('plans_judged')
        ev = sorted({e['kind'] for e in L.spec['events'] if e['k'] == L.k})
        L.R.state(self.p['kind'], self.free, len(L.vs), self.dim[0], bool(self.o.get('soft_formation')), bool(self.o.get('hard_term_con')),
                  bool(self.o.get('no_term_con_der')), round(best, 1), *ev)


def run(spec, R):
    Loop(spec, R, [Best()]).run()
