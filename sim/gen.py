"""Seeded world generator.  Worlds are JSON; everything random comes from the
`random.Random` handed in."""
import math

R3 = lambda x: round(x, 3)


def _ang(r, lo, hi):
    return R3(r.uniform(lo, hi))


def bounds(r, t):
    if t in ('Holonomic', 'Holonomic3D', 'HolonomicOrient', 'Holonomic1D'):
        b = {}
        axes = {'Holonomic': 'xy', 'HolonomicOrient': 'xy', 'Holonomic3D': 'xyz', 'Holonomic1D': 'x'}[t]
        style = r.randrange(4)
        if style == 1:
            v = R3(r.uniform(.45, .9))
            b.update(vmin=-v, vmax=v)
        elif style == 2:
            v, a = R3(r.uniform(.45, .9)), R3(r.uniform(.6, 2.))
            b.update(vmin=-v, vmax=v, amin=-a, amax=a)
        elif style == 3:
            for ax in axes:
                b['v%smax' % ax] = R3(r.uniform(.45, .9))
                b['v%smin' % ax] = -R3(r.uniform(.45, .9))
                b['a%smax' % ax] = R3(r.uniform(.6, 1.5))
                b['a%smin' % ax] = -R3(r.uniform(.6, 1.5))
        return b
    if t == 'Dubins':
        w = R3(r.uniform(.7, 1.2))
        return {'vmax': R3(r.uniform(.5, .9)), 'wmax': w, 'wmin': -R3(r.uniform(.7, 1.2))}
    if t == 'Bicycle':
        return {'vmax': R3(r.uniform(.6, .9))} if r.random() < .5 else {}
    if t == 'Quadrotor':
        return {'u1max': R3(r.uniform(12.5, 16.)), 'u1min': R3(r.uniform(1., 3.))} if r.random() < .5 else {}
    return {}


def holo(r, pos, target, t='Holonomic', norm2=None):
    d = {'type': t, 'x0': pos, 'xT': target, 'bounds': bounds(r, t), 'options': {}}
    if t in ('Holonomic', 'Holonomic3D') and (norm2 if norm2 is not None else r.random() < .25):
        d['options']['syslimit'] = 'norm_2'
        b = d['bounds']
        d['bounds'] = {k: v for k, v in b.items() if k in ('vmax', 'amax')}
    if t == 'Holonomic':
        s = r.random()
        if s < .25:
            d['shape'] = {'k': 'circle', 'r': R3(r.uniform(.08, .25))}
        elif s < .45:
            d['shape'] = {'k': 'rect', 'w': R3(r.uniform(.15, .4)), 'h': R3(r.uniform(.15, .4))}
        elif s < .55:
            d['shape'] = {'k': 'regpoly', 'r': R3(r.uniform(.15, .25)), 'n': r.choice([3, 5, 6])}
    if t == 'Holonomic3D':
        d['shape'] = r.choice([{'k': 'cube', 'w': R3(r.uniform(.15, .3))}, {'k': 'sphere', 'r': R3(r.uniform(.1, .2))},
                               {'k': 'cuboid', 'w': R3(r.uniform(.1, .3)), 'd': R3(r.uniform(.1, .3)), 'h': R3(r.uniform(.1, .3))}])
    if t == 'Holonomic1D':
        d['width'], d['height'] = R3(r.uniform(.3, .7)), .1
    return d


def obs_shape(r, big=False):
    k = r.choice(['circle', 'circle', 'rect', 'square', 'regpoly', 'beam'])
    s = 1.3 if big else 1.
    if k == 'circle':
        return {'k': k, 'r': R3(r.uniform(.15, .4)*s)}
    if k == 'square':
        return {'k': k, 'w': R3(r.uniform(.25, .6)*s), **({'o': R3(r.uniform(0, .7))} if r.random() < .4 else {})}
    if k == 'rect':
        return {'k': k, 'w': R3(r.uniform(.2, .6)*s), 'h': R3(r.uniform(.2, .6)*s),
                **({'o': R3(r.uniform(0, 1.5))} if r.random() < .4 else {})}
    if k == 'regpoly':
        return {'k': k, 'r': R3(r.uniform(.2, .4)*s), 'n': r.choice([3, 4, 5, 6])}
    return {'k': 'beam', 'w': R3(r.uniform(.3, .8)*s), 'h': R3(r.uniform(.1, .2))}


def outer(s):
    """radius of a disc around the position that contains the shape"""
    k = s['k']
    if k in ('circle', 'sphere', 'regpoly'):
        return s['r']
    if k == 'square':
        return s['w']*.7072
    if k == 'rect':
        return .5*math.hypot(s['w'], s['h'])
    if k == 'beam':
        return .5*s['w'] + .5*s['h']
    if k == 'cube':
        return s['w']*.8661
    if k == 'cuboid':
        return .5*math.sqrt(s['w']**2 + s['d']**2 + s['h']**2)
    raise ValueError(k)


def segdist(p, a, b):
    n = len(p)
    ab = [b[i]-a[i] for i in range(n)]
    den = sum(x*x for x in ab)
    t = 0. if den == 0 else min(1., max(0., sum((p[i]-a[i])*ab[i] for i in range(n))/den))
    return math.sqrt(sum((a[i]+t*ab[i]-p[i])**2 for i in range(n)))


def obstacle_between(r, a, b, vr, moving=None, half=2.4, speed=.15, horizon=12.):
    """an obstacle near the straight line a-b, far enough off both ends (for
    a moving one: for as long as it moves)"""
    for _ in range(60):
        s = obs_shape(r)
        rad = outer(s)
        t = r.uniform(.3, .7)
        n = [-(b[1]-a[1]), b[0]-a[0]]
        ln = math.hypot(*n) or 1.
        off = r.choice([-1, 1])*r.uniform(.15, .7)
        p = [a[0]+t*(b[0]-a[0])+off*n[0]/ln, a[1]+t*(b[1]-a[1])+off*n[1]/ln]
        mv = r.random() < .45 if moving is None else moving
        v = [0., 0.]
        if mv:
            v = [r.choice([-1, 1])*r.uniform(.03, speed), r.choice([-1, 1])*r.uniform(.03, speed)]
        e = [p[i]+v[i]*horizon for i in range(2)]
        need = rad + vr + .35
        if segdist(b, p, e) < need or segdist(a, p, e) < need:
            continue
        d = {'shape': s, 'pos': [R3(x) for x in p]}
        if mv:
            d['vel'] = [R3(x) for x in v]
        return d
    return None


def apart(o, others):
    for q in others:
        va, vb = o.get('vel', [0., 0.]), q.get('vel', [0., 0.])
        for k in range(0, 25):
            tt = k*.5
            dd = math.hypot(*[o['pos'][i]+va[i]*tt-q['pos'][i]-vb[i]*tt for i in range(2)])
            if dd < outer(o['shape']) + outer(q['shape']) + .75:
                return False
    return True


def room2(r, kind=None):
    """a room of half width ~2.5 around its centre"""
    k = kind or r.choice(['square', 'square', 'rect', 'poly'])
    c = [R3(r.uniform(-1, 1)), R3(r.uniform(-1, 1))] if r.random() < .4 else [0., 0.]
    if k == 'square':
        d = {'k': 'square', 'w': R3(r.uniform(4.8, 6.))}
    elif k == 'rect':
        d = {'k': 'rect', 'w': R3(r.uniform(4.8, 6.)), 'h': R3(r.uniform(4.8, 6.))}
    else:
        d = {'k': 'regpoly', 'r': R3(r.uniform(3.9, 4.5)), 'n': r.choice([5, 6, 8])}
    if c != [0., 0.]:
        d['pos'] = c
    return d


def p2p2d(r, t='Holonomic', n_obs=None, freeT=None, moving=None, dist=(2., 3.6), options=None):
    room = room2(r)
    c = room.get('pos', [0., 0.])
    from .models import default_shape
    for _ in range(100):
        a = [c[0]+r.uniform(-1.8, 1.8), c[1]+r.uniform(-1.8, 1.8)]
        b = [c[0]+r.uniform(-1.8, 1.8), c[1]+r.uniform(-1.8, 1.8)]
        if dist[0] <= math.hypot(a[0]-b[0], a[1]-b[1]) <= dist[1]:
            break
    a, b = [R3(x) for x in a], [R3(x) for x in b]
    if t == 'Holonomic':
        v = holo(r, a, b)
    elif t == 'HolonomicOrient':
        v = {'type': t, 'x0': a + [0.], 'xT': b + [R3(r.uniform(-.6, .6))], 'bounds': bounds(r, t), 'options': {}}
    elif t == 'Quadrotor':
        v = {'type': t, 'x0': a, 'xT': b, 'bounds': bounds(r, t), 'radius': R3(r.uniform(.12, .25))}
    elif t in ('Dubins', 'Bicycle'):
        th = math.atan2(b[1]-a[1], b[0]-a[0])
        lim = 1.1
        th0 = max(-2.2, min(2.2, th + r.uniform(-.5, .5)))
        thT = max(-2.2, min(2.2, th + r.uniform(-.5, .5)))
        if abs(th) > 1.7:            # drive towards increasing x
            a, b = b, a
            th = math.atan2(b[1]-a[1], b[0]-a[0])
            th0, thT = th + r.uniform(-.5, .5), th + r.uniform(-.5, .5)
        v = {'type': t, 'x0': a + [R3(th0)], 'xT': b + [R3(thT)], 'bounds': bounds(r, t), 'knots': 5, 'options': {}}
        if t == 'Bicycle':
            v['x0'] = v['x0'] + [0.]
            v['length'] = R3(r.uniform(.3, .5))
        elif r.random() < .3:
            v['options']['substitution'] = True
    else:
        raise ValueError(t)
    vr = outer(default_shape(v))
    obs = []
    n = r.choice([0, 1, 1, 2]) if n_obs is None else n_obs
    for _ in range(n):
        o = obstacle_between(r, a[:2], b[:2], vr, moving)
        if o and apart(o, obs):
            obs.append(o)
    ft = (r.random() < .4) if freeT is None else freeT
    w = {'vehicles': [v], 'room': room, 'obstacles': obs, 'problem': {'kind': 'p2p', 'freeT': ft, 'options': options or {}}}
    return w


def p2p1d(r, freeT=None):
    a, b = R3(r.uniform(-2., -.5)), R3(r.uniform(.5, 2.))
    if r.random() < .5:
        a, b = b, a
    v = holo(r, [a], [b], 'Holonomic1D')
    return {'vehicles': [v], 'room': {'k': 'square', 'w': 5.5}, 'obstacles': [],
            'problem': {'kind': 'p2p', 'freeT': (r.random() < .5) if freeT is None else freeT, 'options': {}}}


def p2p3d(r, t='Holonomic3D', freeT=None, n_obs=None):
    a = [R3(r.uniform(-1.8, -.8)) for _ in range(3)]
    b = [R3(r.uniform(.8, 1.8)) for _ in range(3)]
    if t == 'Holonomic3D':
        v = holo(r, a, b, t, norm2=False)
    else:
        v = {'type': t, 'x0': a + [0.]*5, 'xT': b, 'radius': .2}
    obs = []
    n = r.choice([0, 1]) if n_obs is None else n_obs
    for _ in range(n):
        p = [R3((a[i]+b[i])/2 + r.uniform(-.3, .3)) for i in range(3)]
        s = r.choice([{'k': 'sphere', 'r': R3(r.uniform(.2, .4))}, {'k': 'cube', 'w': R3(r.uniform(.3, .5))}])
        obs.append({'shape': s, 'pos': p, **({'vel': [R3(r.uniform(-.08, .08)) for _ in range(3)]} if r.random() < .5 else {})})
    return {'vehicles': [v], 'room': {'k': 'cube', 'w': 5.}, 'obstacles': obs,
            'problem': {'kind': 'p2p', 'freeT': (r.random() < .4) if freeT is None else freeT, 'options': {}}}


def fleet2d(r, n=2, kind='p2p', avoid=True, freeT=False, crossing=True):
    """n holonomic vehicles; kind p2p (with avoidance), formation..., rendezvous"""
    if kind == 'p2p':
        vs = []
        base = r.uniform(0, 2*math.pi)
        for k in range(n):
            th = base + 2*math.pi*k/n + r.uniform(-.25, .25)
            a = [R3(1.7*math.cos(th)), R3(1.7*math.sin(th))]
            dth = math.pi*r.uniform(.8, 1.2) if crossing else r.uniform(-.4, .4)
            rad = 1.4
            b = [R3(rad*math.cos(th+dth)), R3(rad*math.sin(th+dth))]
            v = holo(r, a, b, norm2=False)
            v['shape'] = r.choice([{'k': 'circle', 'r': R3(r.uniform(.1, .2))}, {'k': 'square', 'w': R3(r.uniform(.15, .3))}])
            vs.append(v)
        for i in range(n):
            for j in range(i):
                if math.hypot(*[vs[i]['xT'][q]-vs[j]['xT'][q] for q in (0, 1)]) < .8:
                    vs[i]['xT'] = [-x for x in vs[j]['xT']]
        return {'vehicles': vs, 'room': {'k': 'square', 'w': 5.5}, 'obstacles': [],
                'problem': {'kind': 'p2p', 'freeT': freeT, 'options': {'inter_vehicle_avoidance': avoid}}}
    # formation / rendezvous: vehicles around a centre
    ca = [r.uniform(-1.3, -.9), r.uniform(-1.3, 1.3)]
    cb = [r.uniform(.9, 1.3), r.uniform(-1.3, 1.3)]
    if r.random() < .5:
        ca, cb = cb, ca
    rad = r.uniform(.3, .45)
    ph = r.uniform(0, 6.28)
    conf = [[R3(rad*math.cos(ph+2*math.pi*k/n)), R3(rad*math.sin(ph+2*math.pi*k/n))] for k in range(n)]
    vs = []
    b = bounds(r, 'Holonomic')
    for k in range(n):
        a = [R3(ca[q]+conf[k][q]) for q in (0, 1)]
        if kind == 'rendezvous':
            a = [R3(r.uniform(-1.8, 1.8)), R3(r.uniform(-1.8, 1.8))]
        e = [R3(cb[q]+conf[k][q]) for q in (0, 1)]
        v = {'type': 'Holonomic', 'x0': a, 'xT': e, 'bounds': dict(b), 'options': {}, 'shape': {'k': 'circle', 'r': .1}}
        vs.append(v)
    return {'vehicles': vs, 'room': {'k': 'square', 'w': 6.}, 'obstacles': [],
            'problem': {'kind': kind, 'configuration': conf, 'options': {}}}


def slices(r, Ts, Tu, n, jitter=True):
    """per-step durations as whole samples: nominal, late, early"""
    nom = int(round(Tu/Ts))
    out = []
    for _ in range(n):
        p = r.random()
        if not jitter or p < .6:
            out.append(nom)
        elif p < .85:
            out.append(nom + r.randint(1, max(1, nom)))       # late
        else:
            out.append(max(1, nom - r.randint(1, max(1, nom//2))))   # early
    return out


def agv(r):
    w = p2p2d(r, 'Bicycle', n_obs=0, freeT=True)
    v = w['vehicles'][0]
    v['type'] = 'AGV'
    v['bounds'] = {}
    w['problem']['options']['solver_options'] = {'ipopt': {'ipopt.hessian_approximation': 'limited-memory'}}
    return w


def quad3d(r, t='SimpleQuadrotor3D'):
    w = p2p3d(r, 'Holonomic3D', freeT=False, n_obs=0)
    v = w['vehicles'][0]
    x0, xT = v['x0'], v['xT']
    nx = {'SimpleQuadrotor3D': 8, 'Quadrotor3D': 8}[t]
    w['vehicles'][0] = {'type': t, 'x0': x0 + [0.]*(nx-3), 'xT': xT, 'radius': .2,
                        'bounds': {}, 'options': {}, 'knots': 5}
    w['problem']['options'] = {'horizon_time': 5.}
    return w


def trailer(r):
    lead = {'type': 'Dubins', 'x0': [0., 0., R3(r.uniform(-.2, .2))], 'xT': [R3(r.uniform(1.2, 1.8)), R3(r.uniform(.6, 1.2)), R3(r.uniform(0., .6))],
            'bounds': {'vmax': .8, 'wmax': 1.047, 'wmin': -1.047}, 'knots': 6, 'shape': {'k': 'circle', 'r': .2}}
    v = {'type': 'Trailer', 'x0': 0., 'xT': R3(r.uniform(-.2, .2)), 'lead': lead, 'shape': {'k': 'rect', 'w': .2, 'h': .2}, 'l_hitch': .6,
         'knots': 6, 'bounds': {'tmax': .785, 'tmin': -.785}, 'options': {}}
    return {'vehicles': [v], 'room': {'k': 'square', 'w': 7.}, 'obstacles': [],
            'problem': {'kind': 'p2p', 'freeT': True, 'options': {'solver_options': {'ipopt': {'ipopt.hessian_approximation': 'limited-memory'}}}}}
