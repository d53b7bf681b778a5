"""Independent reference models: vehicle dynamics, limits, footprints and
distances.  Written from the vehicles' documented equations of motion and the
bounds the user passed; nothing in here calls omg-tools."""
import numpy as np

G = 9.81


# ----------------------------------------------------------------- dynamics

def ode(d):
    t = d['type']
    if t in ('Holonomic', 'Holonomic1D', 'Holonomic3D', 'HolonomicOrient'):
        return lambda x, u: np.asarray(u, dtype=float)
    if t == 'Dubins':
        return lambda x, u: np.array([u[0]*np.cos(x[2]), u[0]*np.sin(x[2]), u[1]])
    if t == 'Bicycle':
        L = d.get('length', .4)
        return lambda x, u: np.array([u[0]*np.cos(x[2]), u[0]*np.sin(x[2]), u[0]*np.tan(x[3])/L, u[1]])
    if t == 'AGV':       # steered wheel at the back
        L = d.get('length', .4)
        return lambda x, u: np.array([u[0]*np.cos(x[2]), u[0]*np.sin(x[2]), -u[0]*np.tan(x[3])/L, u[1]])
    if t == 'Quadrotor':
        return lambda x, u: np.array([x[2], x[3], u[0]*np.sin(x[4]), u[0]*np.cos(x[4]) - G, u[1]])
    if t in ('SimpleQuadrotor3D', 'Quadrotor3D'):
        return lambda x, u: np.array([x[3], x[4], x[5], u[0]*np.sin(x[7])*np.cos(x[6]), -u[0]*np.sin(x[6]),
                                      u[0]*np.cos(x[6])*np.cos(x[7]) - G, u[1], u[2]])
    if t == 'Trailer':
        l = d.get('l_hitch', .2)

        def f(x, u):
            dth = u[0]/l*np.sin(x[5] - x[2])
            vx, vy = u[0]*np.cos(x[5]), u[0]*np.sin(x[5])
            return np.array([vx + l*np.sin(x[2])*dth, vy - l*np.cos(x[2])*dth, dth, vx, vy, u[1]])
        return f
    raise ValueError(t)


def rk4(f, x0, U, Ts, n, sub=4):
    """integrate n samples of length Ts; U[:, k] is the input at sample k,
    linear in between; beyond the last sample it is held"""
    x = np.array(x0, dtype=float).ravel()
    U = np.atleast_2d(np.asarray(U, dtype=float))
    out = [x]
    m = U.shape[1]

    def u(s):
        s = min(max(s, 0.), m - 1.)
        k = int(s)
        if k >= m - 1:
            return U[:, -1]
        w = s - k
        return (1-w)*U[:, k] + w*U[:, k+1]
    h = Ts/sub
    for k in range(n):
        for j in range(sub):
            s = k + j/float(sub)
            k1 = f(x, u(s))
            k2 = f(x + .5*h*k1, u(s + .5/sub))
            k3 = f(x + .5*h*k2, u(s + .5/sub))
            k4 = f(x + h*k3, u(s + 1./sub))
            x = x + h/6.*(k1 + 2*k2 + 2*k3 + k4)
        out.append(x)
    return np.array(out).T


def pose(d, X):
    """pose columns [x, y, theta] (or 3-D) for state columns X"""
    X = np.asarray(X, dtype=float)
    t = d['type']
    n = X.shape[1]
    z = np.zeros(n)
    if t == 'Holonomic':
        return np.vstack([X[0], X[1], z])
    if t == 'Holonomic1D':
        return np.vstack([X[0], z, z])
    if t == 'Holonomic3D':
        return np.vstack([X[0], X[1], X[2], z, z, z])
    if t in ('HolonomicOrient', 'Dubins', 'Bicycle', 'AGV'):
        return X[:3]
    if t == 'Quadrotor':
        return np.vstack([X[0], X[1], -X[4]])
    if t in ('SimpleQuadrotor3D', 'Quadrotor3D'):
        return np.vstack([X[0], X[1], X[2], X[6], X[7], z])
    if t == 'Trailer':
        return X
    raise ValueError(t)


def wrap(a):
    return (np.asarray(a) + np.pi) % (2*np.pi) - np.pi


ANGLES = {'HolonomicOrient': [2], 'Dubins': [2], 'Bicycle': [2, 3], 'AGV': [2, 3], 'Quadrotor': [4],
          'SimpleQuadrotor3D': [6, 7], 'Quadrotor3D': [6, 7], 'Trailer': [2, 5]}


def state_diff(d, a, b):
    e = np.asarray(a, dtype=float).ravel() - np.asarray(b, dtype=float).ravel()
    for k in ANGLES.get(d['type'], []):
        e[k] = wrap(e[k])
    return e


# ------------------------------------------------------------------- limits

def _g(b, k, default):
    return b[k] if k in b else default


def limit_violation(d, tr, tol=2e-3):
    """largest violation of the actuator/velocity limits along plan samples
    (tr: dict of signals), as (amount, text); <=0 when all limits hold.
    Relative to the size of the limit."""
    b = dict(d.get('bounds') or {})
    t = d['type']
    o = d.get('options') or {}
    worst = (-1., '')

    def up(name, val, lim):
        nonlocal worst
        v = float(np.max((np.asarray(val) - lim)))/max(abs(lim), .1)
        if v > worst[0]:
            worst = (v, '%s exceeds %g by %.3g' % (name, lim, v*max(abs(lim), .1)))

    def lo(name, val, lim):
        nonlocal worst
        v = float(np.max((lim - np.asarray(val))))/max(abs(lim), .1)
        if v > worst[0]:
            worst = (v, '%s below %g by %.3g' % (name, lim, v*max(abs(lim), .1)))
    U = tr['input']
    if t in ('Holonomic', 'Holonomic3D', 'HolonomicOrient', 'Holonomic1D'):
        acc = tr['dinput'] if 'dinput' in tr else tr['a']
        n = 1 if t == 'Holonomic1D' else (3 if t == 'Holonomic3D' else 2)
        if o.get('syslimit') == 'norm_2':
            up('speed', np.sqrt((U[:n]**2).sum(0)), _g(b, 'vmax', .5))
            up('acceleration', np.sqrt((acc[:n]**2).sum(0)), _g(b, 'amax', 1.))
        else:
            if n != 2:          # one limit for every axis
                b = {q: b[q] for q in ('vmin', 'vmax', 'amin', 'amax') if q in b}
            for k, ax in zip(range(n), 'xyz'):
                up('v'+ax, U[k], _g(b, 'vmax', _g(b, 'v%smax' % ax, .5)))
                lo('v'+ax, U[k], _g(b, 'vmin', _g(b, 'v%smin' % ax, -.5)))
                up('a'+ax, acc[k], _g(b, 'amax', _g(b, 'a%smax' % ax, 1.)))
                lo('a'+ax, acc[k], _g(b, 'amin', _g(b, 'a%smin' % ax, -1.)))
        if t == 'HolonomicOrient':
            up('w', U[2], _g(b, 'wmax', np.pi/6))
            lo('w', U[2], _g(b, 'wmin', -np.pi/6))
    elif t == 'Dubins':
        up('v', U[0], _g(b, 'vmax', .5))
        lo('v', U[0], 0.)
        up('w', U[1], _g(b, 'wmax', np.pi/6))
        lo('w', U[1], _g(b, 'wmin', -np.pi/6))
    elif t in ('Bicycle', 'AGV'):
        vmax = _g(b, 'vmax', .8 if t == 'Bicycle' else .5)
        up('v', U[0], vmax)
        lo('v', U[0], 0.)
        mv = U[0] > .02        # steering is only defined while it moves
        if mv.any():
            up('steering', tr['state'][3][mv], _g(b, 'dmax', np.pi/6))
            lo('steering', tr['state'][3][mv], _g(b, 'dmin', -np.pi/6))
            up('steering rate', U[1][mv], _g(b, 'ddmax', np.pi/4))
            lo('steering rate', U[1][mv], _g(b, 'ddmin', -np.pi/4))
    elif t == 'Quadrotor':
        up('u1', U[0], _g(b, 'u1max', 15.))
        lo('u1', U[0], _g(b, 'u1min', 2.))
        up('u2', U[1], _g(b, 'u2max', 8.))
        lo('u2', U[1], _g(b, 'u2min', -8.))
    elif t == 'SimpleQuadrotor3D':
        up('u1', U[0], _g(b, 'u1max', 15.))
        lo('u1', U[0], _g(b, 'u1min', 2.))
    elif t == 'Quadrotor3D':
        up('u1', U[0], _g(b, 'u1max', 15.))
        lo('u1', U[0], _g(b, 'u1min', 2.))
        for k in (1, 2):
            up('u%d' % (k+1), U[k], _g(b, 'u%dmax' % (k+1), 2.))
            lo('u%d' % (k+1), U[k], _g(b, 'u%dmin' % (k+1), -2.))
        up('phi', tr['state'][6], _g(b, 'phimax', np.pi/6))
        lo('phi', tr['state'][6], _g(b, 'phimin', -np.pi/6))
        up('theta', tr['state'][7], _g(b, 'thetamax', np.pi/6))
        lo('theta', tr['state'][7], _g(b, 'thetamin', -np.pi/6))
    elif t == 'Trailer':
        b2 = dict(d['lead'].get('bounds') or {})
        up('v', U[0], _g(b2, 'vmax', .5))
        lo('v', U[0], 0.)
        up('w', U[1], _g(b2, 'wmax', np.pi/6))
        lo('w', U[1], _g(b2, 'wmin', -np.pi/6))
    return worst


# ---------------------------------------------------------------- footprints

def default_shape(d):
    t = d['type']
    if 'shape' in d:
        return d['shape']
    if t in ('Holonomic', 'Dubins'):
        return {'k': 'circle', 'r': .1}
    if t == 'HolonomicOrient':
        return {'k': 'rect', 'w': .2, 'h': .4}
    if t == 'Quadrotor':
        return {'k': 'circle', 'r': d.get('radius', .2)}
    if t == 'Bicycle':
        return {'k': 'circle', 'r': d.get('length', .4)/2.}
    if t == 'AGV':
        return {'k': 'rect', 'w': .8, 'h': .2}
    if t in ('SimpleQuadrotor3D', 'Quadrotor3D'):
        return {'k': 'sphere', 'r': d.get('radius', .2)}
    if t == 'Holonomic1D':
        return {'k': 'rect', 'w': d.get('width', .7), 'h': d.get('height', .1)}
    raise ValueError(t)


def body(s):
    """shape -> (core points in body frame, radius): the set of points within
    radius of the convex hull of the core points"""
    k = s['k']
    if k == 'circle':
        return np.zeros((1, 2)), s['r']
    if k == 'sphere':
        return np.zeros((1, 3)), s['r']
    if k in ('square', 'rect'):
        w = s['w']
        h = s.get('h', w)
        P = np.array([[w, h], [w, -h], [-w, -h], [-w, h]])*.5
        return _rot(P, s.get('o', 0.)), 0.
    if k == 'beam':
        P = np.array([[.5*s['w'], 0.], [-.5*s['w'], 0.]])
        return _rot(P, s.get('o', 0.)), .5*s['h']
    if k == 'regpoly':
        n, r = s['n'], s['r']
        # facet normals at angles (sin l*dth, cos l*dth), apothem r*cos(pi/n)
        dth = 2*np.pi/n
        P = []
        for l in range(n):
            ang = (l + .5)*dth
            P.append([r*np.sin(ang), r*np.cos(ang)])
        return _rot(np.array(P), s.get('o', 0.)), 0.
    if k in ('cube', 'cuboid'):
        w = s['w']
        dd = s.get('d', w)
        h = s.get('h', w)
        P = np.array([[a*w, b*dd, c*h] for a in (.5, -.5) for b in (.5, -.5) for c in (.5, -.5)])
        return P, 0.
    raise ValueError(k)


def _rot(P, th):
    if np.ndim(th):
        th = np.ravel(th)[0]
    c, s = np.cos(th), np.sin(th)
    return np.asarray(P).dot(np.array([[c, s], [-s, c]]))


def place(s, pos, th=0.):
    P, r = body(s)
    if P.shape[1] == 2:
        return _rot(P, th) + np.asarray(pos[:2], dtype=float), r
    return P + np.asarray(pos[:3], dtype=float), r


def _hull_order(P):
    c = P.mean(0)
    return P[np.argsort(np.arctan2(P[:, 1]-c[1], P[:, 0]-c[0]))]


def _seg_pt(a, b, p):
    ab = b - a
    den = ab.dot(ab)
    t = 0. if den == 0 else min(1., max(0., (p-a).dot(ab)/den))
    return np.linalg.norm(a + t*ab - p)


def _inside(P, p):
    if len(P) < 3:
        return False
    s = 0
    for k in range(len(P)):
        a, b = P[k], P[(k+1) % len(P)]
        c = (b[0]-a[0])*(p[1]-a[1]) - (b[1]-a[1])*(p[0]-a[0])
        if c < -1e-12:
            return False
    return True


def _segs(P):
    if len(P) == 1:
        return []
    if len(P) == 2:
        return [(P[0], P[1])]
    return [(P[k], P[(k+1) % len(P)]) for k in range(len(P))]


def _cross(a, b, c, d):
    def o(p, q, r):
        return (q[0]-p[0])*(r[1]-p[1]) - (q[1]-p[1])*(r[0]-p[0])
    return o(a, b, c)*o(a, b, d) < 0 and o(c, d, a)*o(c, d, b) < 0


def core_dist2(A, B):
    """distance between convex hulls of 2-D point sets; negative = penetration
    depth along the separating axis with least overlap"""
    A, B = np.asarray(A), np.asarray(B)
    if len(A) == 1 and len(B) == 1:
        return float(np.linalg.norm(A[0]-B[0]))
    A = _hull_order(A) if len(A) > 2 else A
    B = _hull_order(B) if len(B) > 2 else B
    axes = []
    for P in (A, B):
        for a, b in _segs(P):
            e = b - a
            n = np.array([e[1], -e[0]])
            ln = np.linalg.norm(n)
            if ln > 0:
                axes.append(n/ln)
    best = -np.inf
    for n in axes:
        pa, pb = A.dot(n), B.dot(n)
        best = max(best, pb.min() - pa.max(), pa.min() - pb.max())
    if best <= 0 and axes and (len(A) > 2 or len(B) > 2):
        if len(A) > 1 and len(B) > 1:
            return float(best)
        if len(A) > 2 or len(B) > 2:
            return float(best)
    dmin = np.inf
    for p in A:
        for a, b in _segs(B) or [(B[0], B[0])]:
            dmin = min(dmin, _seg_pt(a, b, p))
    for p in B:
        for a, b in _segs(A) or [(A[0], A[0])]:
            dmin = min(dmin, _seg_pt(a, b, p))
    for a, b in _segs(A):
        for c, d in _segs(B):
            if _cross(a, b, c, d):
                return 0.
    return float(dmin)


def core_dist3(A, B):
    """3-D: point/box and box/box, axis aligned boxes given by their corners
    (vehicles and obstacles in the 3-D scenarios do not rotate)"""
    la, ua = A.min(0), A.max(0)
    lb, ub = B.min(0), B.max(0)
    gap = np.maximum(lb - ua, la - ub)
    if (gap <= 0).all():
        return float(gap.max()) if (len(A) > 1 or len(B) > 1) else 0.
    return float(np.linalg.norm(np.maximum(gap, 0.)))


def clearance(sa, pa, tha, sb, pb, thb):
    """signed clearance between two placed shapes"""
    A, ra = place(sa, pa, tha)
    B, rb = place(sb, pb, thb)
    if A.shape[1] == 3 and B.shape[1] == 2:       # 2-D obstacle: infinite in z
        A = A[:, :2]
        if sa['k'] in ('cube', 'cuboid'):
            A = np.unique(A, axis=0)
        d = core_dist2(A, B)
    elif A.shape[1] == 3:
        d = core_dist3(A, B)
    else:
        d = core_dist2(A, B)
    return d - ra - rb


def room_violation(room, s, p, th):
    """how far a placed shape sticks out of a room (axis aligned boxes, or
    convex polygons); <= 0 inside"""
    A, r = place(s, p, th)
    P, _ = body(room)
    pos = np.asarray(room.get('pos', [0.]*P.shape[1]), dtype=float)
    if room['k'] in ('square', 'rect', 'cube', 'cuboid') and not room.get('o'):
        lo, hi = P.min(0) + pos, P.max(0) + pos
        return float(max((A - hi).max() + r, (lo - A).max() + r))
    P = _hull_order(P + pos)
    worst = -np.inf
    for a, b in _segs(P):
        e = b - a
        n = np.array([e[1], -e[0]])/np.linalg.norm(e)    # outward for ccw
        worst = max(worst, float((A.dot(n) - a.dot(n)).max() + r))
    return worst


def parts(d, X_pose):
    """list of (shape, pose columns) making up a vehicle"""
    if d['type'] == 'Trailer':
        return [(d['shape'], X_pose[:3]), (default_shape(d['lead']), X_pose[3:6])]
    return [(default_shape(d), X_pose)]


def predicted_obstacle(sig, dt, Ts_grid=None):
    """where an obstacle will be dt after the sample `sig` (dict of the
    obstacle's state), if it keeps its acceleration"""
    pos = sig['position'] + sig['velocity']*dt + .5*sig['acceleration']*dt**2
    th = 0.
    if 'orientation' in sig:
        th = float(np.ravel(sig['orientation'])[0]) + float(np.ravel(sig['angular_velocity'])[0])*dt
    return pos, th


def obstacle_now(o, k=-1):
    s = {q: np.array(o.signals[q][:, k]) for q in ('position', 'velocity', 'acceleration')}
    if 'orientation' in o.signals:
        s['orientation'] = np.array(o.signals['orientation'][:, k])
        s['angular_velocity'] = np.array(o.signals['angular_velocity'][:, k])
    return s


def target_xy(d):
    """position components of the target"""
    m = {'Holonomic1D': 1, 'Holonomic3D': 3, 'SimpleQuadrotor3D': 3, 'Quadrotor3D': 3}.get(d['type'], 2)
    if d['type'] == 'Trailer':
        return np.zeros(0)
    return np.array(d['xT'], dtype=float).ravel()[:m]
