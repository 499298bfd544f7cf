"""C09: an interrupted step loses nothing and the run can be resumed."""
import os
import pickle
import math
import numpy as np
from .. import phys, ref, model, cons, engine
from ..engine import sut, cb
from ..model import L

ID = 'C09'
LEVEL = 'exploration'
TECHNIQUE = ('seeded crash points (any executed line, user callbacks, observers, singular matrices, interrupts) in runs driven by simulate() or step by step; '
             'the state after the crash, the resumed, split and rebuilt-in-another-process runs against the uninterrupted run')
NOTE = ('Sampled crash points and histories. Crashes are raised at line granularity inside the library before the commit (integrate); equality is bit for bit '
        'unless a ball-and-socket, documented to warm-start its solver, or a clock without exact binary steps makes it a tolerance.')
RUNS_QUICK = 3200
RUNS_THOROUGH = 40000
RULE = ('one run = one world, one uninterrupted reference run, then the same timeline in segments with crashes, retries, mode switches and rebuilds; '
        'non-trivial when a crash fired or a world was rebuilt; distinct by event-log digest')
STATES = 'tuples (kind of fault, function interrupted, mode, kinds of constraints, exact or tolerance comparison)'
REAL = ['arboris.core', 'arboris.constraints', 'arboris.controllers', 'arboris.joints', 'arboris.collisions', 'numpy', 'fork (other process)']
STUB = ['timeline (scripted)', 'user actions, user controllers, constraints and observers (scripted)']
ASSUMPTIONS = ['a crash inside integrate, i.e. during the commit itself, is out of the statement']
PROBES = ['crash:line', 'crash:obs', 'crash:obs-init', 'crash:obs-finish', 'crash:user-con', 'crash:user-ctl', 'crash:singular', 'rebuild', 'mode-switch', 'exact', 'tolerance']
RUN_TIMEOUT = 120


def generate(r, tier):
    n = r.randint(2, 8) if r.random() < .985 else r.randint(15, 40)
    kinds = r.choice([[], ['limits', 'contact'], ['contact'], ['limits', 'user'], ['user'], ['contact', 'limits', 'user'], ['ball'], ['ball', 'limits', 'contact']])
    if kinds:
        m, cs = cons.gen_scene(r, kinds, 1, 1 if kinds == ['ball'] else 4, bmax=4)
    else:
        m, cs = model.gen_model(r, nmin=1, nmax=5, visc=0.4, frames=1), []
    for c in cs:
        if c['type'] == 'user':
            c['reset'] = True
            if c['law'] == 'restless':
                c['law'] = 'damper'
    ball = any(c['type'] == 'ball' for c in cs)
    dyadic = r.random() < 0.75
    base = r.choice([2. ** -10, 2. ** -8, 2. ** -7])
    if dyadic:
        steps = [base * r.choice([1., 1., 1., 0.5, 2., 0.25, 3.]) for _ in range(n)]
        t0 = r.choice([0., 0., 1., 2.5, -1.])
    else:
        steps = [base * r.uniform(.5, 2.) for _ in range(n)]
        t0 = r.choice([0., 0.1, 3.7])
    ctl = phys.gen_controllers(r, m, sym=True, user=0.3)
    fail = []
    if r.random() < .5:
        ctl.insert(r.randint(0, len(ctl)), dict(id='cf', type='user', amp=0., phase=0., z=0., skew=0.))
    segs = []
    k = 0
    mode = r.choice(['sim', 'man'])
    if ball:
        mode = 'man'
    while k < n:
        b = min(n, k + r.choice([1, 2, 3, n]))
        fs = []
        while r.random() < 0.75 and len(fs) < 4:
            at = r.randint(k, b - 1)
            kd = r.choice(['line', 'line', 'line', 'obs', 'obs-init', 'obs-finish', 'user-con', 'user-ctl', 'singular'])
            f = dict(kind=kd, at=at, exc=r.choice(phys.FAULT_KINDS))
            if kd == 'line':
                f['n'] = int(math.exp(r.uniform(0, math.log(1500))))
            if kd in ('user-ctl', 'singular') and not any(c['id'] == 'cf' for c in ctl):
                continue
            if kd == 'singular' and any(c['type'] != 'weight' and c['id'] != 'cf' for c in ctl):
                continue
            if kd == 'obs':
                f['last'] = r.random() < .5
            if kd == 'user-con':
                f['where'] = r.choice(['update', 'solve'])
                f['count'] = r.choice([1, 1, 2, 5])
                cand = [c['id'] for c in cs if c['type'] == 'user']
                if not cand:
                    continue
                f['con'] = r.choice(cand)
            fs.append(f)
        fs.sort(key=lambda f: f['at'])
        if not ball and r.random() < .3:
            mode = r.choice(['sim', 'man'])
        segs.append(dict(to=b, mode=mode, faults=fs, noise=[x for x in ('init', 'geo', 'dyn', 'ctl', 'con') if r.random() < .1],
                         rebuild=r.random() < .25 and b < n, rmode='man' if ball else r.choice(['sim', 'man'])))
        k = b
    ev = cons.gen_con_events(r, cs, n, 0.15)
    return dict(model=m, constraints=cs, controllers=ctl, t0=t0, steps=steps, dyadic=dyadic, segs=segs, events=ev,
                umode='man' if ball else r.choice(['sim', 'man']), ball=ball, arr=r.choice(['list', 'array', 'tuple']))


def summary(p):
    return dict(joints=[(b['joint'], b['parent']) for b in p['model']['bodies']], constraints=[c['type'] for c in p['constraints']],
                segments=[(s['mode'], s['to'], [f['kind'] for f in s['faults']], s['rebuild']) for s in p['segs']])


class Obs:
    """observer of the harness"""

    def __init__(self, run, last):
        self.run, self.last = run, last

    def init(self, world, timeline):
        self.run.maybe('obs-init', self.last)

    def update(self, dt):
        if not self.last:
            self.run.maybe('obs', False)
        else:
            self.run.maybe('obs', True)
            self.run.gate = False

    def finish(self):
        self.run.maybe('obs-finish', self.last)


class Hook(engine.LineHook):
    def __init__(self, run):
        engine.LineHook.__init__(self, self.hit)
        self.run, self.count = run, 0

    def hit(self, n, frame):
        f = self.run.fault
        if f is not None and f['kind'] == 'line' and self.run.gate and self.run.k == f['at']:
            self.count += 1
            if self.count >= f['n']:
                self.run.where = frame.f_code.co_name
                self.run.fire(frame.f_code.co_name)


class Run:
    """one world driven over the timeline"""

    def __init__(self, plan, ctx, state=None, k=0):
        from arboris import core
        self.plan, self.ctx, self.k = plan, ctx, k
        self.fault, self.gate, self.where = None, False, ''
        m = plan['model']
        if state is not None:
            m = dict(m)
            m['bodies'] = []
            for b in plan['model']['bodies']:
                b = dict(b)
                b.pop('int', None)
                b['gpos'], b['gvel'] = L(state[0][b['id']]), L(state[1][b['id']])
                m['bodies'].append(b)
        p = dict(model=m, controllers=plan['controllers'], constraints=plan['constraints'], steps=plan['steps'])
        self.st = cons.ConStepper(p, ctx)
        self.w = self.st.w
        self.ctls = self.st.ctls
        self.times = [plan['t0']]
        for d in plan['steps']:
            self.times.append(self.times[-1] + d)
        self.states = {}
        self.log = []
        run, w = self, self.w
        engine.set_clock(w, self.times[k])
        orig = w.update_dynamic

        def update_dynamic():
            run.started = run.snap()
            run.gate = True
            return orig()
        w.update_dynamic = update_dynamic
        self.init_crash, self.in_init = False, False
        winit = w.init

        def init():
            run.in_init, run.init_crash, run.gate = True, True, True
            winit()
            run.in_init = run.init_crash = False
        w.init = init
        oi = w.integrate

        def integrate(dt):
            run.gate = False
            oi(dt)
            run.k += 1
            run.st.k = run.k
            run.states[run.k] = run.snap()
        w.integrate = integrate
        self.core = core
        if 'cf' in self.ctls:
            c = self.ctls['cf']
            cu = c.update

            def ctl_update(dt):
                run.maybe('user-ctl')
                f = run.fault
                if f is not None and f['kind'] == 'singular' and run.k == f['at']:
                    run.fault, run.sing = None, True
                    ctx.count('crash:singular')
                    cu(dt)
                    return np.zeros(w.ndof), w.mass / dt + w.viscosity + w.nleffects
                return cu(dt)
            c.update = ctl_update
        self.sing = False
        with sut(ctx, 'World.init'):
            self.w.init()
        self.st.k = k
        self.applied = 0

    def snap(self):
        q, v = self.st.sim.state()
        return q, v, float(self.w.current_time), self.w.gvel

    def events(self):
        self.gate = False
        a, self.applied = self.applied, self.k + 1
        for e in self.plan['events']:
            if a <= e['at'] <= self.k:
                if e['kind'] == 'rebind':
                    sim = self.st.sim
                    for i, j in sim.joints.items():
                        if sim.tree.links[i].kind != 'Fixed':
                            j.gpos = np.array(j.gpos)
                    continue
                c = self.st.cons[e['con']]
                (c.enable if e['kind'] == 'enable' else c.disable)()
                self.st.enabled[e['con']] = e['kind'] == 'enable'

    def fire(self, where=''):
        f = self.fault
        self.fault = None
        e = engine.make_exc(f['exc'])
        self.ctx.injected.append(e)
        self.ctx.count('crash:' + f['kind'])
        self.ctx.count('fault:' + f['exc'])
        self.ctx.log('crash', f['kind'], f['exc'], self.k, where)
        self.ctx.note('crash %s (%s) at step %d %s' % (f['kind'], f['exc'], self.k, where))
        raise e

    def maybe(self, kind, last=None):
        f = self.fault
        if f is None or f['kind'] != kind:
            return
        if kind == 'obs-init' and last:
            self.fire()
        if kind == 'obs-finish' and not last:
            self.fire()
        if kind == 'obs' and self.k == f['at'] and f['last'] == last:
            self.fire()
        if kind == 'user-ctl' and self.k == f['at']:
            self.fire()

    def timeline(self, b):
        t = self.times[self.k:b + 1]
        return {'list': list(t), 'array': np.array(t), 'tuple': tuple(t)}[self.plan['arr']]

    def advance(self, b, mode, skip=None):
        """complete the steps k..b-1; events of the timeline are applied between calls"""
        while self.k < b:
            # up to the next event
            self.events()
            e = min([x['at'] for x in self.plan['events'] if x['at'] > self.k] + [b])
            k0, b0 = self.k, min(e, b)
            self.one(b0, mode, skip)
            if self.k < b0 and skip is not None and skip():
                break               # out of the domain of the model
            self.ctx.check(self.k == b0, 'steps', '%d steps made instead of %d' % (self.k - k0, b0 - k0))

    def one(self, b, mode, skip=None):
        o = [Obs(self, False), Obs(self, True)]
        if mode == 'sim':
            class O(self.core.Observer):
                def __init__(self, d):
                    self.d = d
                    self.init, self.update, self.finish = d.init, d.update, d.finish

                def init(self, world, timeline):
                    pass

                def update(self, dt):
                    pass

                def finish(self):
                    pass
            with sut(self.ctx, 'simulate', allow=(np.linalg.LinAlgError,) if self.sing_ok() else (), skip=skip):
                self.core.simulate(self.w, self.timeline(b), [O(x) for x in o])
        else:
            tt = self.times[self.k:b + 1]
            if self.init_crash:         # the last call to World.init did not complete
                self.w.init()
            self.maybe('obs-init', True)
            for i in range(len(tt) - 1):
                dt = tt[i + 1] - tt[i]
                with sut(self.ctx, 'step', allow=(np.linalg.LinAlgError,) if self.sing_ok() else (), skip=skip):
                    self.w.update_dynamic()
                    self.w.update_controllers(dt)
                    if self.plan['ball']:
                        self.w.update_constraints(dt, 5000, 1e-12)
                    else:
                        self.w.update_constraints(dt)
                    for x in o:
                        x.update(dt)
                    self.w.integrate(dt)
            self.maybe('obs-finish', False)

    def sing_ok(self):
        return self.fault is not None and self.fault['kind'] == 'singular'

    def blown(self):
        q, v = self.st.sim.state()
        x = max([np.abs(a).max(initial=0) for a in v.values()] + [0])
        return not x < 1e3 or cond_bad(self)

    def crash(self, b, mode, f):
        """try to advance to b with the fault; True when it fired"""
        ctx = self.ctx
        self.fault = f
        if f['kind'] == 'user-con':
            self.fault = dict(f)
        self.sing = False
        ni = len(ctx.injected)
        k0 = self.k
        try:
            with Hook(self):
                if f['kind'] == 'user-con':
                    # the constraint raises at step f['at'] only
                    if f['at'] > self.k:
                        self.advance(f['at'], mode)
                    self.st.user_fault = dict(f)
                    self.events()
                    try:
                        self.one(self.k + 1, mode)
                    finally:
                        self.st.user_fault = None
                else:
                    self.advance(b, mode)
        except BaseException as e:
            if self.sing and isinstance(e, np.linalg.LinAlgError):
                pass
            elif not any(e is i for i in ctx.injected):
                raise
            if f['kind'] == 'user-con':
                ctx.count('crash:user-con')
        self.fault = None
        fired = len(ctx.injected) > ni or self.sing
        self.st.cons_trace, self.user_calls = [], []
        self.st.user_calls.clear()
        return fired


def cond_bad(run):
    """out of the regime where a step is well posed"""
    w = run.w
    Y = w.admittance
    return not (Y.ndim == 2 and np.all(np.isfinite(Y)) and np.linalg.eigvalsh(Y + Y.T).min(initial=1) > 0)


def same(a, b, joints_only=False):
    return all(np.array_equal(a[i][j], b[i][j], equal_nan=True) for i in (0, 1) for j in a[i]) and (joints_only or np.array_equal(a[3], b[3], equal_nan=True))


def dist(a, b):
    d = 0.
    for i in (0, 1):
        for j in a[i]:
            x = np.abs(np.asarray(a[i][j]) - np.asarray(b[i][j]))
            s = 1 + np.abs(np.asarray(b[i][j])).max(initial=0)
            d = max(d, (x.max(initial=0) / s) if np.all(np.isfinite(x)) else np.inf)
    return d


class Other:
    """another process, forked before any world exists, which rebuilds the world
    from saved joint states and runs it to the end"""

    def __init__(self, plan, before):
        r0, w0 = os.pipe()
        r1, w1 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                for o in before:
                    os.close(o.w)
                    os.close(o.r)
                os.close(w0)
                os.close(r1)
                with os.fdopen(r0, 'rb') as f:
                    job = f.read()
                if job:
                    state, k, mode = pickle.loads(job)
                    ctx = engine.Ctx(ID)
                    out = {}
                    run = None
                    try:
                        run = Run(plan, ctx, state, k)
                        run.states[k] = run.snap()
                        run.advance(len(plan['steps']), mode, skip=run.blown)
                        out['states'] = run.states
                    except engine.Violation as e:
                        out['violation'] = (e.cls, e.msg)
                        out['states'] = run.states if run else {}
                    except BaseException as e:
                        import traceback
                        out['error'] = traceback.format_exc()
                    with os.fdopen(w1, 'wb') as f:
                        f.write(pickle.dumps(out))
                code = 0
            finally:
                os._exit(code)
        os.close(r0)
        os.close(w1)
        self.w, self.r = w0, r1

    def run(self, state, k, mode):
        with os.fdopen(self.w, 'wb') as f:
            f.write(pickle.dumps((state, k, mode)))
        self.w = None
        with os.fdopen(self.r, 'rb') as f:
            out = f.read()
        os.waitpid(self.pid, 0)
        self.r = None
        return pickle.loads(out)

    def close(self):
        if self.w is not None:
            os.close(self.w)
            os.close(self.r)
            os.waitpid(self.pid, 0)


def execute(plan, ctx):
    nreb = sum(bool(s['rebuild']) for s in plan['segs'])
    others = []
    for _ in range(min(nreb, 2)):
        others.append(Other(plan, others))
    try:
        body(plan, ctx, others)
    finally:
        for o in others:
            o.close()


def body(plan, ctx, others):
    n = len(plan['steps'])
    types = tuple(sorted(set(c['type'] for c in plan['constraints'])))
    # the uninterrupted run
    U = Run(plan, ctx)
    U.states[0] = U.snap()
    good = n
    try:
        U.advance(n, plan['umode'])
    except engine.Violation:
        if not U.blown():
            raise
        ctx.first = None
        ctx.count('blown-up')
    good = U.k
    S = U.states
    for k in range(good + 1):
        x = max([np.abs(a).max(initial=0) for a in S[k][1].values()] + [0])
        if not x < 1e3:
            good = k
            ctx.count('blown-up')
            break
    exact = plan['dyadic'] and not plan['ball']
    ctx.count('exact' if exact else 'tolerance')
    if not exact:
        # the comparison by tolerance needs a well posed run
        for k in range(good):
            dv = max([np.abs(a).max(initial=0) for a in S[k][1].values()] + [0]) * plan['steps'][k]
            if dv > 0.1 or plan['ball'] and len(plan['constraints']) > 1:   # slow convergence: not comparable
                break
        else:
            k = good
        cmp_to = k
    else:
        cmp_to = good

    def compare(k, s, what):
        ctx.check(abs(s[2] - S[k][2]) <= 1e-12 * (1 + abs(s[2])), 'clock', lambda: '%s: clock %r instead of %r after %d steps' % (what, s[2], S[k][2], k))
        if k > cmp_to:
            return
        if exact:
            ctx.check(same(s, S[k]), 'trajectory', lambda: '%s: after %d steps the state differs from the uninterrupted run (by %.3g)' % (what, k, dist(s, S[k])))
        else:
            d = dist(s, S[k])
            ctx.check(d < 1e-5, 'trajectory', lambda: '%s: after %d steps the state differs from the uninterrupted run by %.3g' % (what, k, d))

    R = Run(plan, ctx)
    R.states[0] = R.snap()
    k = 0
    last = None
    for seg in plan['segs']:
        b = min(seg['to'], good)
        if R.k >= b:
            break
        mode = seg['mode']
        if last not in (None, mode):
            ctx.count('mode-switch')
        last = mode
        for f in seg['faults']:
            if not (R.k <= f['at'] < b):
                continue
            R.where = ''
            k0 = R.k
            fired = R.crash(b, mode, f)
            if not fired:
                ctx.count('fault-not-reached')
                if R.k >= b:
                    break
                continue
            ctx.nontrivial = True
            ctx.sig(f['kind'], f['exc'], R.where, mode, types, exact)
            want = {'obs-init': k0, 'obs-finish': R.k}.get(f['kind'], f['at'])
            s = R.snap()
            ctx.check(R.k == want, 'steps', 'crash in step %d, but %d steps are completed' % (want, R.k))
            # nothing was lost: the state is the one of the last completed step
            e = R.states[R.k]
            if R.init_crash:
                ctx.count('crash-in-init')
            ctx.check(same(s, e, R.init_crash), 'lost', lambda: 'the crash (%s %s in %s) changed the joint state by %.3g' % (f['kind'], f['exc'], R.where or 'callback', dist(s, e)))
            ctx.check(s[2] == e[2] or (R.k == k0 and abs(s[2] - R.times[R.k]) <= 1e-12 * (1 + abs(s[2]))), 'clock-lost',
                      lambda: 'after a crash (%s) in step %d the clock is %r instead of %r' % (f['kind'], R.k, s[2], e[2]))
            if R.k >= b:
                break
        for x in seg['noise']:
            if R.init_crash:
                R.w.init()
            with sut(ctx, 'call between two steps', skip=R.blown):
                if x == 'init':
                    R.w.init()
                elif x == 'geo':
                    R.w.update_geometric()
                elif x == 'dyn':
                    R.w.update_dynamic()
                elif x == 'ctl':
                    R.w.update_dynamic()
                    R.w.update_controllers(plan['steps'][0])
                else:
                    R.w.update_dynamic()
                    R.w.update_controllers(plan['steps'][0])
                    R.w.update_constraints(plan['steps'][0])
            ctx.count('noise')
        if R.k < b:
            try:
                R.advance(b, mode, skip=R.blown)
            except engine.Violation:
                raise
            if R.k < b:
                ctx.count('blown-up')
                return
        for i in range(k, R.k + 1):
            compare(i, R.states[i], 'resumed run')
        k = R.k
        ctx.log('seg', k, *[x for x in R.snap()[1].values()])
        ctx.steps += 1
        if seg['rebuild'] and others and k < good and not plan['model'].get('int'):
            o = others.pop()
            out = o.run(R.snap(), k, seg['rmode'])
            if 'error' in out:
                raise engine.HarnessError(out['error'])
            ctx.count('rebuild')
            ctx.nontrivial = True
            if 'violation' in out and good == n:
                ctx.fail(*out['violation'])
            for i, s in sorted(out['states'].items()):
                if i <= good:
                    compare(i, s, 'run rebuilt at step %d in another process' % k)
    ctx.sim_time += sum(plan['steps'][:R.k])
