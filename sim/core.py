"""Seeded deterministic simulation: runner, event log, minimiser, replay.

A *scenario* is a JSON value (the spec).  `gen(rng, i, tier)` derives one from a
PRNG seeded by VERIF_SEED, the property id and the run's index; `run(spec, R)`
executes it against the real code, as a pure function of the spec and the code.
The spec is therefore the replay file, and minimising means shrinking the spec.

Every run happens in a child forked from a pristine parent, so no run can see
what another left behind, and a CPU budget (not a wall clock) bounds it.
"""
import collections
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NWORK = int(os.environ.get('OMGSIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)


class Stop(Exception):
    """ends a run after a violation that makes going on pointless"""


class Spent(BaseException):
    """the CPU budget of the run is used up"""


SOLVER_CPU = [0.]       # CPU seconds this run spent inside the numerical solver


class Injected(Exception):
    """an error raised by the simulator, standing for a failing environment"""


class Rec:
    """what one run recorded: event log (hashed), violations, fault counts,
    probes, abstract states, simulated time"""

    def __init__(self, keep_log=False):
        self.h = hashlib.sha256()
        self.n_events = 0
        self.violations = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.simtime = 0.0
        self.oracle = 0
        self.keep = [] if keep_log else None
        self.reached = False       # did the run do something non trivial

    def log(self, kind, *args):
        s = kind + ' ' + ' '.join(_fmt(a) for a in args)
        self.h.update(s.encode() + b'\n')
        self.n_events += 1
        if self.keep is not None:
            self.keep.append(s)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *key):
        self.states.add('|'.join(str(k) for k in key))

    def check(self, ok, cls, msg='', **data):
        """one oracle evaluation"""
        self.oracle += 1
        if not ok:
            self.violate(cls, msg() if callable(msg) else msg, **data)
        return ok

    def violate(self, cls, msg, **data):
        if len(self.violations) < 20:
            self.violations.append({'cls': cls, 'msg': msg, 'data': data})
        self.log('VIOLATION', cls, msg)

    def result(self):
        return {'hash': self.h.hexdigest(), 'events': self.n_events,
                'violations': self.violations, 'faults': dict(self.faults),
                'probes': dict(self.probes), 'states': sorted(self.states),
                'simtime': self.simtime, 'oracle': self.oracle,
                'reached': self.reached, 'log': self.keep}


def _fmt(a):
    import numpy as np
    if isinstance(a, float) or isinstance(a, np.floating):
        return repr(float(a))
    if isinstance(a, np.ndarray):
        return '[' + ','.join(_fmt(x) for x in a.ravel().tolist()) + ']'
    if isinstance(a, (list, tuple)):
        return '[' + ','.join(_fmt(x) for x in a) + ']'
    return str(a)


def load(prop):
    return importlib.import_module('sim.checks.' + prop.lower())


# --------------------------------------------------------------- one run

def execute(mod, spec, keep_log=False):
    """run one spec in this process; exceptions coming out of the code under
    test are violations, exceptions of the harness are errors"""
    R = Rec(keep_log)
    try:
        from . import boot
        boot.install_clock()
        boot.seed_numpy(int(spec.get('np_seed', 0)))
        random.seed(0)
        mod.run(spec, R)
    except Stop:
        pass
    except Spent:
        # a solver that grinds is slow, anything else that uses up the budget hangs
        if SOLVER_CPU[0] > .5*time.process_time():
            R.probe('cpu_budget_spent_in_solver')
        else:
            R.violate('hang', 'no progress within the CPU budget of one run')
    except Exception as e:       # noqa
        tb = traceback.extract_tb(e.__traceback__)
        repo = os.path.abspath(os.environ.get('OMG_REPO', '/repo')) + os.sep
        in_repo = [f for f in tb if os.path.abspath(f.filename).startswith(repo)]
        # the innermost frame that is ours or the repository's decides
        mine = [f for f in tb if os.path.abspath(f.filename).startswith((repo, HERE + os.sep))]
        if in_repo and mine and os.path.abspath(mine[-1].filename).startswith(repo):
            fr = mine[-1]
            R.violate('crash:' + type(e).__name__, '%s: %s  [%s:%d in %s]' % (
                type(e).__name__, str(e)[:300], os.path.relpath(fr.filename, repo), fr.lineno, fr.name))
        else:
            res = R.result()
            res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
            return res
    return R.result()


def _child(mod, spec, wfd, cpu, keep_log):
    try:
        os.setsid()
        soft = int(cpu)
        resource.setrlimit(resource.RLIMIT_CPU, (soft, soft + 60))

        def spent(*a):
            raise Spent()
        signal.signal(signal.SIGXCPU, spent)
        SOLVER_CPU[0] = 0.
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        sys.stdin = open(os.devnull)
        sys.stdout = open(os.devnull, 'w')
        sys.stderr = open(os.devnull, 'w')
        res = execute(mod, spec, keep_log)
    except BaseException as e:     # noqa
        res = {'error': 'child: %r' % (e,) + traceback.format_exc()}
    data = pickle.dumps(res)
    try:
        os.write(wfd, struct.pack('<Q', len(data)))
        mv = memoryview(data)
        while mv:
            n = os.write(wfd, mv)
            mv = mv[n:]
    finally:
        os._exit(0)


class Pool:
    """at most NWORK forked runs at a time; results in order of index"""

    def __init__(self, mod, cpu=240, nwork=None, keep_log=False):
        self.mod, self.cpu, self.nwork, self.keep = mod, cpu, nwork or NWORK, keep_log

    def map(self, specs, deadline=None, stop=None):
        specs = list(specs)
        results = [None]*len(specs)
        running = {}
        nxt = 0
        halted = False
        while True:
            while (not halted) and nxt < len(specs) and len(running) < self.nwork:
                if deadline is not None and time.time() > deadline:
                    halted = True
                    break
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    _child(self.mod, specs[nxt], w, self.cpu, self.keep)
                os.close(w)
                running[r] = [nxt, pid, b'', time.time()]
                nxt += 1
            if not running:
                break
            ready, _, _ = select.select(list(running), [], [], 5.0)
            for fd in ready:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    running[fd][2] += chunk
                    continue
                i, pid, buf, t0 = running.pop(fd)
                os.close(fd)
                _, status = os.waitpid(pid, 0)
                try:                      # anything the run left running
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                if len(buf) >= 8 and len(buf) - 8 == struct.unpack('<Q', buf[:8])[0]:
                    results[i] = pickle.loads(buf[8:])
                elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU,):
                    results[i] = {'hang': True}
                elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE):
                    results[i] = {'signal': os.WTERMSIG(status)}
                else:
                    results[i] = {'error': 'child died, status %r, %d bytes' % (status, len(buf))}
                results[i] = normal(results[i])
                if stop is not None and stop(i, results[i]):
                    halted = True
        return results


def normal(res):
    base = Rec().result()
    if res.get('hang'):
        res = {'violations': [{'cls': 'hang', 'msg': 'no progress within the CPU budget of one run', 'data': {}}]}
    elif res.get('signal'):
        res = {'violations': [{'cls': 'killed:%d' % res['signal'], 'msg': 'the process died with signal %d' % res['signal'], 'data': {}}]}
    out = dict(base)
    out.update(res)
    return out


# --------------------------------------------------------------- minimise

def shrinks(spec, mod):
    """smaller candidate specs, biggest reductions first"""
    if hasattr(mod, 'shrink'):
        for s in mod.shrink(spec):
            yield s
    for key in getattr(mod, 'SHRINK_LISTS', ('events', 'faults', 'ops')):
        lst = spec.get(key)
        if isinstance(lst, list) and lst:
            n = len(lst)
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    s = copy.deepcopy(spec)
                    del s[key][a:a+size]
                    yield s
                size //= 2
    for key, low in getattr(mod, 'SHRINK_INTS', {'steps': 1}).items():
        v = spec.get(key)
        if isinstance(v, int) and v > low:
            for c in sorted({low, (v + low)//2, v - 1}):
                if c < v:
                    s = copy.deepcopy(spec)
                    s[key] = c
                    yield s


def minimise(mod, spec, cls, budget_s=90, cpu=240):
    t0 = time.time()
    best = spec
    tried = 0
    improved = True
    pool = Pool(mod, cpu)
    seen = {json.dumps(spec, sort_keys=True)}
    while improved and time.time() - t0 < budget_s:
        improved = False
        cands = []
        for c in shrinks(best, mod):
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cands.append(c)
            if len(cands) >= 64:
                break
        for a in range(0, len(cands), pool.nwork):
            if time.time() - t0 > budget_s:
                break
            batch = cands[a:a+pool.nwork]
            res = pool.map(batch)
            tried += len(batch)
            hit = [k for k, r in enumerate(res) if r and any(v['cls'] == cls for v in r['violations'])]
            if hit:
                best = batch[hit[0]]
                improved = True
                break
    return best, tried


# --------------------------------------------------------------- known findings

def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except IOError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == prop]


def match_finding(known, spec, v):
    """a finding names the violation class it produces and the scenario tag
    (`finding`) of the one input that produces it"""
    for k in known:
        if k['cls'] == v['cls'] and spec.get('finding') == k['id']:
            return k
    return None


# --------------------------------------------------------------- the check

def rng_for(seed, prop, i):
    return random.Random('%s/%s/%s' % (seed, prop, i))


def make_specs(mod, prop, seed, tier, n=None):
    n = n or mod.RUNS[tier]
    specs = []
    fixed = list(mod.fixed(tier)) if hasattr(mod, 'fixed') else []
    for s in fixed:
        s['fixed'] = True
        specs.append(s)
    for i in range(n):
        r = rng_for(seed, prop, i)
        s = mod.gen(r, i, tier)
        s.setdefault('np_seed', r.randrange(2**31))
        s['run'] = i
        specs.append(s)
    return json.loads(json.dumps(specs))


def check(prop, seed, tier, runs=None, wall=None, quiet_=False):
    t0 = time.time()
    mod = load(prop)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    print('property=%s VERIF_SEED=%s tier=%s workers=%d' % (prop, seed, tier, NWORK))
    sys.stdout.flush()
    specs = make_specs(mod, prop, seed, tier, runs)
    cap = wall or (600 if tier == 'quick' else 3300)
    deadline = t0 + cap
    known = known_findings(prop)
    cpu = getattr(mod, 'CPU', 240)
    pool = Pool(mod, cpu)

    def stop(i, r):
        bad = [v for v in r['violations'] if not match_finding(known, specs[i], v)]
        return bool(bad) or 'error' in r
    results = pool.map(specs, deadline, stop)
    done = [(s, r) for s, r in zip(specs, results) if r is not None]
    errors = [(s, r) for s, r in done if 'error' in r]
    kf = {}
    bad = None
    nviol = 0
    for s, r in done:
        for v in r['violations']:
            k = match_finding(known, s, v)
            if k:
                kf[k['id']] = (k, v)
            else:
                nviol += 1
                if bad is None:
                    bad = (s, r, v)
    for kid in sorted(kf):
        k, v = kf[kid]
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    wall_runs = time.time() - t0
    replay = None
    minim = None
    if bad is not None:
        s, r, v = bad
        print('violation in run %s: class=%s  %s' % (s.get('run', 'fixed'), v['cls'], v['msg']))
        sys.stdout.flush()
        small, tried = minimise(mod, s, v['cls'], getattr(mod, 'MIN_S', 60), cpu)
        replay = write_replay(prop, seed, small, s, v['cls'])
        ok, out = fresh_replay(replay)
        if not ok and small != s:
            replay = write_replay(prop, seed, s, s, v['cls'])
            ok, out = fresh_replay(replay)
        minim = {'candidates_tried': tried, 'replayed_in_fresh_process': ok}
        print(out)
    evidence(prop, seed, tier, mod, done, time.time() - t0, wall_runs, nviol, kf, replay, minim, len(specs), errors)
    if bad is not None:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if errors:
        print('HARNESS ERROR in run %s:\n%s' % (errors[0][0].get('run', 'fixed'), errors[0][1]['error']))
        return 2
    if not done:
        print('no run finished')
        return 2
    print('ok: %d runs, %d oracle evaluations, %.1f simulated s, %.1f s wall' % (
        len(done), sum(r['oracle'] for _, r in done), sum(r['simtime'] for _, r in done), time.time() - t0))
    return 0


def write_replay(prop, seed, spec, orig, cls):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    mod = load(prop)
    res = Pool(mod, getattr(mod, 'CPU', 240)).map([spec])[0]
    body = {'property': prop, 'seed': seed, 'cls': cls, 'spec': spec, 'original_spec': orig, 'log_sha256': res['hash'], 'events': res['events']}
    h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


def fresh_replay(path):
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim', 'replay', path], cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    out = p.stdout.decode(errors='replace')
    return p.returncode == 1, '\n'.join('  replay: ' + l for l in out.strip().splitlines()[-6:])


def replay(path):
    with open(path) as f:
        body = json.load(f)
    mod = load(body['property'])
    if hasattr(mod, 'prepare'):
        mod.prepare()
    res = Pool(mod, getattr(mod, 'CPU', 240)).map([body['spec']])[0]
    if 'error' in res:
        print(res['error'])
        return 2
    for v in res['violations']:
        print('%s: %s' % (v['cls'], v['msg']))
    same = any(v['cls'] == body['cls'] for v in res['violations'])
    exact = res['hash'] == body.get('log_sha256')
    print('replay of %s: %s (event log %s, %d events, %s)' % (
        body['property'], 'reproduced ' + body['cls'] if same else 'NOT reproduced', res['hash'][:16], res['events'],
        'identical to the recorded one' if exact else 'NOT the recorded one'))
    if same:
        print('VIOLATION property=%s replay=%s' % (body['property'], path))
    return 1 if same else 0


def evidence(prop, seed, tier, mod, done, wall, wall_runs, nviol, kf, replay_, minim, planned, errors):
    faults, probes = collections.Counter(), collections.Counter()
    states, hashes, nontriv = set(), set(), set()
    for s, r in done:
        faults.update(r['faults'])
        probes.update(r['probes'])
        states.update(r['states'])
        hashes.add(r['hash'])
        if r['reached'] and r['oracle']:
            nontriv.add(r['hash'])
    n = len(done)
    sim = sum(r['simtime'] for _, r in done)
    samples = []
    for s, r in done[:2] + done[-1:]:
        samples.append({'spec': s, 'events': r['events'], 'oracle_evaluations': r['oracle'],
                        'faults_fired': r['faults'], 'log_sha256': r['hash']})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(nontriv),
            'rule': getattr(mod, 'RULE', ''),
            'samples': samples,
            'runs_planned': planned,
            'runs_without_fault': sum(1 for _, r in done if not r['faults']),
            'runs_with_fault': sum(1 for _, r in done if r['faults']),
            'runs_per_hour': round(n/max(wall_runs, 1e-9)*3600.),
            'oracle_evaluations': sum(r['oracle'] for _, r in done),
            'events_logged': sum(r['events'] for _, r in done),
            'simulated_seconds': round(sim, 3),
            'faults_fired': dict(sorted(faults.items())),
            'probes': dict(sorted(probes.items())),
            'distinct_event_logs': len(hashes),
            'distinct_states': len(states),
            'state_measure': getattr(mod, 'STATE_MEASURE', 'abstract states named by the scenario'),
            'real_components': getattr(mod, 'REAL', []),
            'stub_components': getattr(mod, 'STUB', []),
            'known_findings_seen': sorted(kf),
            'harness_errors': len(errors),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    if replay_:
        ev['coverage']['replay'] = replay_
        ev['coverage']['minimisation'] = minim
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))


# --------------------------------------------------------------- determinism

def hashes(prop, seed, tier, n, nwork):
    mod = load(prop)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    specs = make_specs(mod, prop, seed, tier, n)[-n:]
    res = Pool(mod, getattr(mod, 'CPU', 240), nwork).map(specs)
    return [r['hash'] if 'error' not in r else 'error' for r in res]


def selftest(props, seed, n=6):
    """the same runs, executed again in fresh interpreters with other numbers
    of workers and another hash seed, must give the same event logs"""
    rc = 0
    if not props:
        props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'checks')) if f[0] == 'c' and f.endswith('.py'))
    for p in props:
        out = []
        for w, hs in ((1, '0'), (NWORK, '0'), (3, '7')):
            env = dict(os.environ, PYTHONHASHSEED=hs, VERIF_SEED=str(seed))
            q = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim', 'hashes', p, 'quick', str(n), str(w)],
                               cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            out.append(q.stdout.decode().split())
        ok = out[0] == out[1] == out[2] and len(out[0]) == n
        print('%s %s' % (p, 'same event logs' if ok else 'DIFFERENT: %s' % out))
        rc |= not ok
    return int(rc)


def main(argv):
    cmd = argv[0]
    seed = os.environ.get('VERIF_SEED', '1')
    seed = int(seed) if seed.lstrip('-').isdigit() else int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16)
    if cmd == 'check':
        prop = argv[1]
        tier = 'quick'
        runs = wall = None
        for a in argv[2:]:
            if a in ('quick', 'thorough'):
                tier = a
            elif a.startswith('runs='):
                runs = int(a[5:])
            elif a.startswith('wall='):
                wall = float(a[5:])
        return check(prop, seed, tier, runs, wall)
    if cmd == 'replay':
        return replay(argv[1])
    if cmd == 'setup':         # nothing to build: python sources are loaded from /repo at each check
        from . import boot
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        print('omgtools loaded from %s' % os.path.dirname(boot.omgtools.__file__))
        return 0
    if cmd == 'selftest':
        return selftest(argv[1:], seed)
    if cmd == 'hashes':
        for h in hashes(argv[1], seed, argv[2], int(argv[3]), int(argv[4])):
            print(h)
        return 0
    if cmd == 'spec':
        mod = load(argv[1])
        specs = make_specs(mod, argv[1], seed, 'quick', int(argv[2]) + 1)
        print(json.dumps(specs[-1], indent=1))
        return 0
    if cmd == 'one':       # run one generated spec in the foreground, with its log
        mod = load(argv[1])
        if hasattr(mod, 'prepare'):
            mod.prepare()
        specs = [s for s in make_specs(mod, argv[1], seed, 'quick', int(argv[2]) + 1)]
        t0 = time.time()
        r = execute(mod, specs[-1], True)
        if len(argv) > 3:
            print('\n'.join(r['log'] or []))
        print(json.dumps({k: v for k, v in r.items() if k not in ('log',)}, indent=1)[:6000])
        print('%.2f s' % (time.time() - t0))
        return 0
    print('unknown command', cmd)
    return 2
