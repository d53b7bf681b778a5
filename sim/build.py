"""Turn a JSON world description into live omg-tools objects."""
from .boot import *      # noqa
import copy


def fresh(s):
    """a str object that is not the interned literal (what json.load yields)"""
    return ''.join(list(s))


def shape(d):
    k = d['k']
    if k == 'circle':
        return Circle(d['r'])
    if k == 'square':
        return Square(d['w'], **({'orientation': d['o']} if 'o' in d else {}))
    if k == 'rect':
        return Rectangle(width=d['w'], height=d['h'], **({'orientation': d['o']} if 'o' in d else {}))
    if k == 'regpoly':
        return RegularPolyhedron(d['r'], d['n'], **({'orientation': d['o']} if 'o' in d else {}))
    if k == 'beam':
        return Beam(width=d['w'], height=d['h'])
    if k == 'sphere':
        return Sphere(d['r'])
    if k == 'cube':
        return Cube(d['w'])
    if k == 'cuboid':
        return Cuboid(d['w'], d['d'], d['h'])
    raise ValueError(k)


def opts(d):
    out = {}
    for k, v in (d or {}).items():
        if k == 'spline_params':
            v = dict(v, coeffs=np.array(v['coeffs'], dtype=float))
        if k == 'input_disturbance' and v:
            v = {kk: (np.array(vv) if isinstance(vv, list) else vv) for kk, vv in v.items()}
        elif isinstance(v, str):
            v = fresh(v)
        out[k] = v
    return out


def vehicle(d, conditions=True):
    t = d['type']
    o, b = opts(d.get('options')), dict(d.get('bounds') or {})
    kw = {'options': o, 'bounds': b}
    if t == 'Holonomic':
        v = Holonomic(shapes=shape(d['shape']), **kw) if 'shape' in d else Holonomic(**kw)
    elif t == 'Holonomic1D':
        v = Holonomic1D(width=d.get('width', .7), height=d.get('height', .1), **kw)
    elif t == 'Holonomic3D':
        v = Holonomic3D(shape(d['shape']), **kw)
    elif t == 'HolonomicOrient':
        v = HolonomicOrient(shapes=shape(d['shape']), **kw) if 'shape' in d else HolonomicOrient(**kw)
    elif t == 'Quadrotor':
        v = Quadrotor(d.get('radius', .2), **kw)
    elif t == 'Dubins':
        v = Dubins(shapes=shape(d['shape']), **kw) if 'shape' in d else Dubins(**kw)
    elif t == 'Bicycle':
        v = Bicycle(length=d.get('length', .4), **kw)
    elif t == 'AGV':
        v = AGV(length=d.get('length', .4), **kw)
    elif t == 'Trailer':
        lead = vehicle(d['lead'], conditions)
        v = Trailer(lead_veh=lead, shapes=shape(d['shape']), l_hitch=d.get('l_hitch', .2), **kw)
    elif t == 'SimpleQuadrotor3D':
        v = SimpleQuadrotor3D(d.get('radius', .2), **kw)
    elif t == 'Quadrotor3D':
        v = Quadrotor3D(d.get('radius', .2), **kw)
    else:
        raise ValueError(t)
    if 'knots' in d:
        v.define_knots(knot_intervals=d['knots'])
    if conditions:
        x0 = d['x0']
        v.set_initial_conditions(np.array(x0, dtype=float) if isinstance(x0, list) else x0)
        if d.get('xT') is not None:
            xT = d['xT']
            v.set_terminal_conditions(np.array(xT, dtype=float) if isinstance(xT, list) else xT)
    return v


def obstacle(d):
    init = {'position': list(d['pos'])}
    if 'vel' in d:
        init['velocity'] = list(d['vel'])
    if 'acc' in d:
        init['acceleration'] = list(d['acc'])
    if 'ori' in d:
        init['orientation'] = d['ori']
    if 'omega' in d:
        init['angular_velocity'] = d['omega']
    sim = {}
    if d.get('traj'):
        sim['trajectories'] = {k: {'time': list(t['time']), 'values': [list(x) for x in t['values']]}
                               for k, t in d['traj'].items()}
    return Obstacle(init, shape=shape(d['shape']), simulation=sim, options=opts(d.get('options')))


def environment(w):
    r = w['room']
    room = {'shape': shape(r)}
    if 'pos' in r:
        room['position'] = list(r['pos'])
    env = Environment(room=room)
    for o in w.get('obstacles', []):
        env.add_obstacle(obstacle(o))
    return env


TIGHT = {'ipopt': {'ipopt.tol': 1e-6, 'ipopt.linear_solver': 'mumps', 'ipopt.max_iter': 250}}


def problem_options(w):
    o = copy.deepcopy(w.get('problem', {}).get('options') or {})
    o.setdefault('verbose', 0)
    so = o.setdefault('solver_options', {})
    ip = so.setdefault('ipopt', {})
    for k, v in TIGHT['ipopt'].items():
        ip.setdefault(k, v)
    return o


def world(w):
    """-> (vehicles, environment, problem) with the problem initialised"""
    vs = [vehicle(d) for d in w['vehicles']]
    env = environment(w)
    fleet = None
    if len(vs) > 1:
        fleet = Fleet(vs, **({'interconnection': w['problem']['interconnection']} if w.get('problem', {}).get('interconnection') else {}))
        if w.get('problem', {}).get('configuration'):
            fleet.set_configuration([list(c) for c in w['problem']['configuration']])
    return vs, env, problem(w, vs, env, fleet)


def problem(w, vs, env, fleet=None):
    p = w.get('problem', {})
    o = problem_options(w)
    kind = p.get('kind', 'p2p')
    if kind == 'p2p':
        pr = Point2point(fleet or vs[0], env, o, freeT=p.get('freeT', False))
        for v in vs[:]:
            if isinstance(v, Trailer):       # as examples/p2p_trailer.py does
                pr.father.add(v.lead_veh)
                pr.vehicles.append(v.lead_veh)
                v.lead_veh.to_simulate = False
    elif kind == 'scheduler':
        gr = p['grid']
        x0, xT = w['vehicles'][0]['x0'], w['vehicles'][0]['xT']
        gp = AStarPlanner(env, list(gr['n']), list(x0), list(xT), options={'veh_size': gr['size']} if gr.get('size') else {})
        vs[0].set_terminal_conditions(list(xT))
        o['freeT'] = bool(p.get('freeT'))
        pr = SchedulerProblem(vs[0], env, gp, options=o)
    elif kind == 'rendezvous':
        pr = RendezVous(fleet, env, options=o)
    else:
        pr = {'formation': FormationPoint2point, 'formation_central': FormationPoint2pointCentral,
              'formation_dd': FormationPoint2pointDualDecomposition}[kind](fleet, env, options=o)
    pr.init()
    return pr
