"""Scenario builder shared by the closed-loop checks: a seeded world, a seeded
schedule of update instants and a seeded list of faults."""
from . import gen as G
from .models import default_shape


def pick(r, kinds):
    tot = sum(w for _, w in kinds)
    x = r.random()*tot
    for k, w in kinds:
        x -= w
        if x < 0:
            return k
    return kinds[-1][0]


def world_of(r, k, **kw):
    if k == 'holo':
        return G.p2p2d(r, 'Holonomic', **kw)
    if k == 'h1d':
        return G.p2p1d(r, **{q: v for q, v in kw.items() if q == 'freeT'})
    if k == 'h3d':
        return G.p2p3d(r, **{q: v for q, v in kw.items() if q in ('freeT', 'n_obs')})
    if k == 'dubins':
        kw.setdefault('n_obs', r.choice([0, 0, 1]))
        return G.p2p2d(r, 'Dubins', **kw)
    if k == 'quad':
        kw.setdefault('n_obs', r.choice([0, 1]))
        kw['freeT'] = False
        return G.p2p2d(r, 'Quadrotor', options={'horizon_time': 5.}, **kw)
    if k == 'bike':
        kw.update(n_obs=0, freeT=True)
        return G.p2p2d(r, 'Bicycle', **kw)
    if k == 'agv':
        return G.agv(r)
    if k == 'orient':
        kw.update(n_obs=0, freeT=False)
        return G.p2p2d(r, 'HolonomicOrient', **kw)
    if k == 'squad3':
        return G.quad3d(r, 'SimpleQuadrotor3D')
    if k == 'quad3':
        return G.quad3d(r, 'Quadrotor3D')
    if k == 'trailer':
        return G.trailer(r)
    if k == 'fleet':
        return G.fleet2d(r, 2, 'p2p')
    if k == 'formation':
        return G.fleet2d(r, r.choice([3, 3, 4]), 'formation')
    if k == 'rendezvous':
        return G.fleet2d(r, 3, 'rendezvous')
    if k == 'central':
        return G.fleet2d(r, r.choice([3, 4]), 'formation_central')
    raise ValueError(k)


# steps of a run that is not meant to end by arriving
STEPS = {'bike': 8, 'agv': 7, 'orient': 5, 'formation': 14, 'rendezvous': 12, 'central': 12, 'dubins': 18, 'quad': 18,
         'fleet': 10, 'squad3': 16, 'quad3': 6, 'trailer': 3}
TIMINGS = [(.01, 10), (.01, 10), (.02, 5), (.05, 4), (.01, 29), (.01, 7), (.1, 3)]
# components of the state a push may touch
PUSH = {'quad': 4, 'h1d': 1, 'h3d': 3, 'dubins': 3, 'bike': 3, 'agv': 3, 'orient': 3, 'squad3': 6, 'quad3': 6}
VARHORIZON = ('holo', 'h1d', 'h3d', 'dubins', 'fleet', 'formation', 'central')


def timing(r, choices=TIMINGS):
    Ts, n = r.choice(choices)
    return Ts, round(n*Ts, 6)


def scenario(r, k, world=None, jitter=.75, push=0., amp=.03, solver=0., disturb=0., ideal=0., delay=0., horizon=.5,
             timings=TIMINGS, steps=None, max_push=3, retarget=0., **kw):
    w = world or world_of(r, k, **kw)
    Ts, Tu = timing(r, timings)
    if r.random() < horizon and not w['problem'].get('freeT') and k in VARHORIZON:
        w['problem']['options']['horizon_time'] = r.choice([8., 10., 12.])
    steps = steps or STEPS.get(k, 24)
    spec = {'world': w, 'Ts': Ts, 'Tu': Tu, 'kind': k, 'steps': steps,
            'slices': G.slices(r, Ts, Tu, steps, r.random() < jitter), 'events': []}
    nv = len(w['vehicles'])
    if r.random() < push and k != 'trailer':
        for _ in range(r.randint(1, max_push)):
            m = PUSH.get(k, 2)
            a = amp if k != 'fleet' else amp/3.
            spec['events'].append({'k': r.randint(1, steps-1), 'kind': 'push', 'vehicle': r.randrange(nv),
                                   'dx': [round(r.uniform(-a, a), 4) for _ in range(m)]})
    if r.random() < solver:
        spec['events'] += solver_faults(r, steps, nv)
    if r.random() < retarget:
        v = r.randrange(nv)
        xT = list(w['vehicles'][v]['xT'])
        for q in range(min(2, len(xT))):
            xT[q] = round(xT[q] + r.uniform(-.4, .4), 3)
        spec['events'].append({'k': r.randint(1, max(1, steps//2)), 'kind': 'retarget', 'vehicle': v, 'xT': xT})
    for v in w['vehicles']:
        o = v.setdefault('options', {})
        if ideal:
            s = r.random()
            if s < ideal:
                o['ideal_prediction'] = True
            elif s < 2*ideal:
                o['ideal_update'] = True
            if s < 2*ideal:
                continue
        if r.random() < disturb:
            n = {'h1d': 1, 'h3d': 3, 'orient': 3, 'quad3': 3, 'squad3': 3}.get(k, 2)
            o['input_disturbance'] = {'fc': r.choice([.02, .05, .1]), 'stdev': [.05]*n,
                                      'mean': [round(r.uniform(-.02, .02), 3)]*n}
        if r.random() < delay:
            o['1storder_delay'] = True
            o['time_constant'] = round(r.uniform(.05, .2), 3)
    return spec


STATUS = ['Maximum_CpuTime_Exceeded', 'Maximum_CpuTime_Exceeded', 'Maximum_Iterations_Exceeded',
          'Infeasible_Problem_Detected', 'Restoration_Failed']


def solver_faults(r, steps, nv=1, first=1):
    """bursts of failed solves: a time-out or breakdown returns an iterate
    somewhere between the initial guess and the solution"""
    out = []
    for _ in range(r.randint(1, 2)):
        k0 = r.randint(first, max(first, steps-2))
        st = r.choice(STATUS)
        for q in range(r.choice([1, 1, 2, 3])):
            out.append({'k': k0+q, 'kind': 'solver', 'status': st, 'progress': r.choice([0., .5, .9, 1.]),
                        'agent': r.randrange(nv)})
    return out


def change_of_mind(r, s, acc=0.):
    """an obstacle changes its velocity or acceleration under way"""
    obs = s['world']['obstacles']
    if not obs:
        return
    o = r.choice(obs)
    T = sorted(round(r.uniform(.3, 4.), 2) for _ in range(2))
    o['traj'] = {'velocity': {'time': T, 'values': [[round(r.uniform(-.12, .12), 3) for _ in range(2)] for _ in T]}}
    if acc and r.random() < acc:
        a = [round(r.uniform(-.08, .08), 3) for _ in range(2)]
        T = sorted(round(r.uniform(.1, 3.), 2) for _ in range(2))
        o['traj']['acceleration'] = {'time': T, 'values': [a, [-a[0], -a[1]]]}
        if r.random() < .6:
            del o['traj']['velocity']


def stall(r, s):
    """now and then an update takes longer than what is left of the plan"""
    Ts = s['Ts']
    h = float(s['world']['problem']['options'].get('horizon_time', 10.))
    for _ in range(r.randint(1, 2)):
        k = r.randrange(1, len(s['slices']))
        s['slices'][k] = int(round(r.uniform(.7, 1.4)*h/Ts))
