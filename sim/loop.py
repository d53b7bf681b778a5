"""The closed loop under the simulator: the real Simulator/Deployer/Problem/
Vehicle/Environment code runs, the harness decides when each update happens,
what is measured, what the solver returns and what hits the vehicles."""
from .boot import *        # noqa
from .core import Stop, SOLVER_CPU, Injected
from . import build, models
import copy
import time as _time


class Solver:
    """the NLP solver behind the seam `problem.problem(...)`: passes calls to
    the real one, records return status, injects time-outs and interrupted
    solves on request"""

    def __init__(self, real, loop, name='x'):
        self.real, self.loop, self.name = real, loop, name
        self.status = None
        self.calls = 0
        self.next_fault = None
        self.history = []

    def __call__(self, **kw):
        t0 = _time.process_time()
        try:
            return self.call(**kw)
        finally:
            SOLVER_CPU[0] += _time.process_time() - t0

    def call(self, **kw):
        self.calls += 1
        for o in self.loop.obs:
            o.before_solve(self.loop, self, kw)
        f, self.next_fault = self.next_fault, None
        CLOCK.advance(self.loop.solve_time())
        if f is not None and f['kind'] == 'abort':
            raise Injected('the caller gave up')
        if f is None:
            res = self.real(**kw)
            self.status = self.real.stats()['return_status']
            self.forged = False
        else:
            self.loop.R.fault('solver:' + f['status'])
            alpha = f.get('progress', 0.)
            x0 = np.array(kw['x0'].cat if hasattr(kw['x0'], 'cat') else kw['x0'], dtype=float).reshape(-1, 1)
            res = self.real(**kw)
            x = x0 + alpha*(np.array(res['x']).reshape(-1, 1) - x0)
            if f.get('noise'):
                x = x + f['noise']*np.sin(np.arange(x.size)*1.7 + self.calls).reshape(-1, 1)
            from casadi import DM
            res = dict(res)
            res['x'] = DM(x)
            self.status = f['status']
            self.forged = True
        self.history.append(self.status)
        return res

    def stats(self):
        st = dict(self.real.stats())
        st['return_status'] = self.status
        return st

    def __getattr__(self, n):
        return getattr(self.real, n)


class Observer:
    def start(self, L): pass
    def before_update(self, L): pass       # before predict/solve at L.t
    def before_solve(self, L, solver, kw): pass    # what is handed to the solver
    def after_update(self, L): pass        # after the new plan is stored
    def after_simulate(self, L): pass
    def end(self, L): pass


class LoopSim(Simulator):
    """the library's Simulator; update() is announced to the loop"""
    loop = None

    def update(self, *a, **kw):
        L = self.loop
        L.begin_step()
        stop = Simulator.update(self, *a, **kw)
        L.end_step(stop)
        return stop


class Loop:

    def __init__(self, spec, R, observers=()):
        self.spec, self.R = spec, R
        self.Ts, self.Tu = spec.get('Ts', .01), spec.get('Tu', .1)
        self.obs = list(observers)
        self.k = -1
        self.max_steps = spec.get('steps', 100)
        self.out = None          # what the library says
        self.forced = None       # the duration the caller asked for
        self.stopped = False
        self.overrun = False
        self.events = {}
        for e in spec.get('events', []):
            self.events.setdefault(e['k'], []).append(e)
        self.w = spec['world']
        self.vs, self.env, self.pr = build.world(self.w)
        for v in self.vs:
            v.problem = self.subproblem(v)
        self.wrap_solvers()
        self.sim = LoopSim(self.pr, sample_time=self.Ts, update_time=self.Tu)
        self.sim.loop = self
        dep = self.sim.deployer
        real_update = dep.update

        def update(current_time, *a, **kw):
            self.t = float(current_time)
            for o in self.obs:
                o.before_update(self)
            res = real_update(current_time, *a, **kw)
            for o in self.obs:
                o.after_update(self)
            if max(v.trajectories['time'].shape[1] for v in self.vs) > 20000:
                # an interrupted solve may leave any duration behind
                self.R.probe('absurdly_long_plan')
                self.overrun = True
                raise Stop()
            # what the plant starts this step from
            self.start_state = [v.signals['state'][:, -1].copy() if hasattr(v, 'signals') else v.trajectories['state'][:, 0].copy() for v in self.vs]
            self.start_input = [v.signals['input'][:, -1].copy() if hasattr(v, 'signals') else v.trajectories['input'][:, 0].copy() for v in self.vs]
            return res
        dep.update = update

    # ------------------------------------------------------------ structure
    def subproblem(self, v):
        if hasattr(self.pr, 'problems'):
            return self.pr.problems[self.vs.index(v)]
        return getattr(self.pr, 'local_problem', self.pr)

    def distributed(self):
        return hasattr(self.pr, 'problems')

    def wrap_solvers(self):
        self.solvers = []
        if self.distributed():
            for u in self.pr.updaters:
                name = 'problem_upd_x' if hasattr(u, 'problem_upd_x') else 'problem_upd_xz'
                self.solvers.append(Solver(getattr(u, name), self, str(u._index)))
                setattr(u, name, self.solvers[-1])
        elif hasattr(self.pr, 'generate_problem'):
            # makes itself a new problem every now and then
            sol, make = Solver(None, self), self.pr.generate_problem
            self.solvers.append(sol)
            self.made = 0

            def generate_problem():
                p = make()
                sol.real, p.problem = p.problem, sol
                self.made += 1
                return p
            self.pr.generate_problem = generate_problem
        else:
            self.pr.problem = Solver(self.pr.problem, self)
            self.solvers.append(self.pr.problem)

    def father(self, v):
        return self.subproblem(v).father

    def horizon(self, v):
        """length of the current plan of v"""
        p = self.subproblem(v)
        if hasattr(p, 'motion_times'):
            return float(sum(np.ravel(self.father(v).get_variables(p, 'T%d' % k)[0])[0] for k in range(p.n_frames)))
        if self.w['problem'].get('freeT'):
            return float(np.ravel(self.father(v).get_variables(p, 'T')[0])[0])
        return float(p.options['horizon_time'])

    def plan_exhausted(self, v):
        """a free-time plan shorter than one sample: documented not to be
        stored or driven any more, the vehicle is there"""
        return self.horizon(v) < self.Ts

    def solve_time(self):
        s = self.spec.get('solve_times')
        if s:
            return s[max(self.k, 0) % len(s)]
        return .02

    def status(self, v=None):
        if v is not None and self.distributed():
            return self.solvers[self.vs.index(v)].status
        return self.solvers[0].status if not self.distributed() else \
            ('Solve_Succeeded' if all(s.status == 'Solve_Succeeded' for s in self.solvers) else 'some failed')

    def ok(self, v=None):
        if v is not None and self.distributed():
            s = self.solvers[self.vs.index(v)]
            return s.status == 'Solve_Succeeded'
        return self.status() == 'Solve_Succeeded'

    # ------------------------------------------------------------ stepping
    def begin_step(self):
        self.k += 1
        if self.k >= self.max_steps:
            self.overrun = True
            raise Stop()
        sl = self.spec.get('slices')
        if sl and self.forced is None:
            dt = round(sl[self.k % len(sl)]*self.Ts, 9)
            if abs(dt - self.Tu) > 1e-9:
                self.R.fault('late_update' if dt > self.Tu else 'early_update')
            self.sim.update_time = dt
        self.dt = self.sim.update_time if self.forced is None else self.forced
        self.t = float(self.sim.current_time)
        self.prev_plan = [copy.deepcopy(v.trajectories) if hasattr(v, 'trajectories') else None for v in self.vs]
        self.state_before = [None if not hasattr(v, 'signals') else v.signals['state'][:, -1].copy() for v in self.vs]
        for e in self.events.get(self.k, []):
            self.apply(e)
        self.R.log('step', self.k, round(self.t, 9), self.dt)

    def apply(self, e):
        kind = e['kind']
        if kind == 'solver':
            idx = e.get('agent', 0) % len(self.solvers)
            self.solvers[idx].next_fault = e
            return
        if kind == 'push':                   # the vehicle is knocked away
            v = self.vs[e.get('vehicle', 0) % len(self.vs)]
            if hasattr(v, 'signals'):
                x = v.signals['state'][:, -1].copy()
                d = np.zeros(len(x))
                m = min(len(d), len(e['dx']))
                d[:m] = e['dx'][:m]
                v.overrule_state(x + d)
                self.R.fault('push')
            return
        if kind == 'obstacle':
            if self.env.obstacles:
                self.R.fault('obstacle_event')
            return
        if kind == 'retarget':
            v = self.vs[e.get('vehicle', 0) % len(self.vs)]
            v.set_terminal_conditions(np.array(e['xT'], dtype=float))
            self.w['vehicles'][self.vs.index(v)]['xT'] = list(e['xT'])
            self.R.fault('retarget')
            return
        raise ValueError(kind)

    def end_step(self, stop):
        R = self.R
        R.simtime += self.dt
        for v in self.vs:
            R.log('state', v.signals['state'][:, -1], v.signals['input'][:, -1])
        for o in self.env.obstacles:
            R.log('obst', o.signals['position'][:, -1])
        R.log('solver', self.status(), bool(stop))
        R.reached = True
        self.stop_now = bool(stop)
        for o in self.obs:
            o.after_simulate(self)

    def run(self):
        with quiet() as self.out:
            for o in self.obs:
                o.start(self)
            try:
                self.sim.run()
                self.stopped = True
            except Stop:
                if not self.overrun:
                    raise
            for o in self.obs:
                o.end(self)
        return self


# ------------------------------------------------------------------ helpers

def plan_vehicle(L, i):
    return L.w['vehicles'][i]
