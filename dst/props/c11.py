"""C11: simulate drives the observers by a fixed protocol on the given timeline."""
import math
import numpy as np
from .. import phys, ref, model, cons, engine
from ..engine import sut, cb
from ..model import L

ID = 'C11'
LEVEL = 'exploration'
TECHNIQUE = ('random histories of runs of simulate (timelines, observer collections, nested simulations, aborted and repeated runs with injected faults) '
             'checked call by call against a protocol automaton, with what each observer can read compared to an independent model at that instant')
NOTE = ('Sampled histories. dt and clock are compared to a few rounding errors of the times, because simulate accumulates the clock; with exact binary timelines they '
        'are compared exactly, and the joint state bit for bit with the same world stepped by hand.')
RUNS_QUICK = 4000
RUNS_THOROUGH = 40000
RULE = ('one run = one world and a history of simulate calls on it with up to 5 observers; non-trivial when at least two observers saw two steps; distinct by event-log digest')
STATES = 'tuples (collection type, timeline type, number of steps and observers, kinds of observers, faults so far)'
REAL = ['arboris.core.simulate', 'arboris.core', 'arboris.observers', 'arboris.constraints', 'arboris.controllers']
STUB = ['observers, controllers (scripted probes)', 'timelines (scripted)']
ASSUMPTIONS = ['timelines are increasing sequences', 'what an aborted run does after the exception is not judged']
PROBES = ['coll:list', 'coll:tuple', 'coll:dict', 'coll:named', 'coll:iter', 'coll:none', 'nested', 'aborted', 'rerun', 'no-step', 'same-buffer', 'exact', 'clock-mismatch']
RUN_TIMEOUT = 120


def gen_times(r, start=None):
    n = r.choice([0, 1, 1, 2, 3, 4, 6]) if r.random() < .985 else r.choice([25, 60, 120])
    dy = r.random() < .7
    base = r.choice([2. ** -10, 2. ** -8, 2. ** -7]) if n < 20 else 2. ** -11
    t = [start if start is not None else r.choice([0., 0., 0., 1., -2., 3.5, 100.])]
    for _ in range(n):
        t.append(t[-1] + base * (r.choice([1., 1., .5, 2., 3.]) if dy else r.uniform(.3, 3.)))
    typ = r.choice(['list', 'tuple', 'array', 'array'])
    if r.random() < .06 and start is None:
        t = list(range(r.randint(0, 3), r.randint(4, 6)))
        dy, typ = True, r.choice(['list', 'range', 'iarray'])
    return t, typ, dy


def gen_obs(r, i, nested=True):
    kind = r.choice(['spy'] * 5 + ['energy', 'gpos', 'nested', 'com'])
    if not nested and kind == 'nested':
        kind = 'spy'
    o = dict(id='o%d' % i, kind=kind)
    if kind == 'nested':
        o['where'] = r.choice(['init', 'update', 'finish'])
        o['times'] = [0., 2. ** -8, 2. ** -7][:r.randint(1, 3)]
    return o


def generate(r, tier):
    kinds = r.choice([[], [], ['limits'], ['contact'], ['limits', 'contact']])
    if kinds:
        m, cs = cons.gen_scene(r, kinds, 1, 2, bmax=3)
    else:
        m, cs = model.gen_model(r, nmin=1, nmax=4, visc=0.3, frames=2, massless=0.1), []
    nobs = r.choice([0, 1, 2, 2, 3, 3, 5])
    obs = [gen_obs(r, i) for i in range(nobs)]
    runs = []
    for k in range(r.choice([1, 1, 2, 3])):
        t, typ, dy = gen_times(r)
        again = None
        if k and r.random() < .5:
            # as many steps as the previous run, from the same first time or not
            p = runs[-1]
            n, again = len(p['times']) - 1, r.choice(['object', 'buffer', 'buffer'])
            base = 2. ** -9
            t = [p['times'][0]]
            for _ in range(n):
                t.append(t[-1] + base * r.choice([1., 2., 3.]))
            typ, dy = ('array' if again == 'buffer' else p['typ']), True
            if typ in ('range', 'iarray'):
                typ = 'list'
        f = None
        if r.random() < .3:
            f = dict(kind=r.choice(['obs-init', 'obs-update', 'obs-finish', 'ctl', 'line']), at=r.randint(0, 5), who=r.randint(0, 4),
                     n=int(math.exp(r.uniform(0, math.log(3000)))), exc=r.choice(phys.FAULT_KINDS))
        runs.append(dict(times=[float(x) for x in t] if not isinstance(t[0], int) else t, typ=typ, dyadic=dy, cont=k > 0 and r.random() < .4, fault=f, again=again,
                         coll=r.choice(['list', 'list', 'tuple', 'dict', 'named', 'iter', 'gen', 'values']),
                         order=r.sample(range(nobs), nobs), none=nobs == 0 and r.random() < .5, kw=r.random() < .3))
    return dict(model=m, constraints=cs, controllers=phys.gen_controllers(r, m, sym=True, user=.2), obs=obs, runs=runs)


def summary(p):
    return dict(joints=[b['joint'] for b in p['model']['bodies']], observers=[o['kind'] for o in p['obs']],
                runs=[(len(x['times']) - 1, x['typ'], x['coll'], x['fault'] and x['fault']['kind']) for x in p['runs']])


class Bench:
    """the simulated world, its probes and the automaton"""

    def __init__(self, plan, ctx):
        from arboris import core, observers as O
        self.plan, self.ctx, self.core = plan, ctx, core
        p = dict(model=plan['model'], controllers=plan['controllers'], constraints=plan['constraints'], steps=[1e-3])
        self.st = cons.ConStepper(p, ctx)
        self.w = self.st.w
        self.run = None
        self.buf = None
        bench = self

        class Probe(core.Controller):
            """first of the controllers: counts"""

            def __init__(self):
                core.Controller.__init__(self, name='probe')
                self.ctx = ctx
                self.ninit = 0
                self.calls = []

            def init(self, world):
                self.ninit += 1
                self.n = world.ndof

            def update(self, dt):
                if bench.fault('ctl'):
                    bench.raise_()
                self.calls.append((float(dt), float(bench.w.current_time)))
                return np.zeros(self.n), np.zeros((self.n, self.n))
        self.probe = Probe()
        self.w.register(self.probe)

        class Spy(core.Observer):
            def __init__(self, spec):
                core.Observer.__init__(self, name=spec['id'])
                self.ctx, self.spec = ctx, spec

            @cb
            def init(self, world, timeline):
                bench.on_init(self.spec, world, timeline)

            @cb
            def update(self, dt):
                bench.on_update(self.spec, dt)

            @cb
            def finish(self):
                bench.on_finish(self.spec)
        self.obs = {}
        for o in plan['obs']:
            base = None
            if o['kind'] == 'energy':
                base = O.EnergyMonitor
            elif o['kind'] == 'gpos':
                base = O.RecordJointGpos
            elif o['kind'] == 'com':
                base = O.CoMObserver
                if not any(b.mass[5, 5] > 0 for b in self.w.iterbodies()):
                    base = None
            if base is None:
                self.obs[o['id']] = Spy(o)
                continue
            args = {'energy': (), 'gpos': (next(iter(self.w.iterjoints())),), 'com': (list(self.w.ground.iter_descendant_bodies()),)}[o['kind']]
            self.obs[o['id']] = self.wrapped(base, args, o)

    def wrapped(self, base, args, spec):
        """a real observer, whose calls are seen by the automaton"""
        bench = self

        class Real(base):
            def init(self, world, timeline):
                base.init(self, world, timeline)
                bench.on_init(spec, world, timeline)

            def update(self, dt):
                base.update(self, dt)
                bench.on_update(spec, dt)

            def finish(self):
                base.finish(self)
                bench.on_finish(spec)
        return Real(*args)

    # -- faults
    def fault(self, kind, who=None, at=None):
        f = self.run.get('fault') if self.run else None
        if f is None or f['kind'] != kind or self.fired:
            return False
        if kind == 'ctl':
            return len(self.probe.calls) - self.ncall0 >= f['at'] % max(self.n, 1)
        o = self.run['order']
        if who is not None and (not o or who != self.plan['obs'][o[f['who'] % len(o)]]['id']):
            return False
        return at is None or at == f['at'] % max(self.n, 1)

    def raise_(self):
        f = self.run['fault']
        self.fired = True
        e = engine.make_exc(f['exc'])
        self.ctx.injected.append(e)
        self.ctx.count('fault:%s-%s' % (f['kind'], f['exc']))
        self.ctx.log('fault', f['kind'], f['exc'])
        raise e

    # -- the automaton
    def on_init(self, spec, world, timeline):
        if self.fault('obs-init', spec['id']):
            self.raise_()
        ck = self.ctx.check
        w, run = self.w, self.run
        i = spec['id']
        ck(self.phase == 'init', 'order', 'observer %s initialised %s' % (i, self.phase))
        self.expect(i, 'init')
        ck(world is w, 'init-world', 'observer %s initialised with another world' % i)
        ck(len(timeline) == self.n + 1 and all(float(a) == float(b) for a, b in zip(timeline, run['tt'])), 'init-timeline',
           'observer %s initialised with another timeline' % i)
        ck(self.probe.ninit == self.ninit0 + 1, 'init-order', 'observer %s initialised when the world was initialised %d times for this run' % (i, self.probe.ninit - self.ninit0))
        ck(float(w.current_time) == float(run['tt'][0]), 'init-clock', 'observer %s initialised at %r, the timeline starts at %r' % (i, w.current_time, run['tt'][0]))
        ck(len(self.probe.calls) == self.ncall0, 'init-late', 'observer %s initialised after the first step began' % i)
        q, v = self.st.sim.state()
        self.same_state(q, v, 0, 'init of ' + i)
        if spec['kind'] == 'nested' and spec['where'] == 'init':
            self.nested(spec)

    def expect(self, i, what):
        order = [self.plan['obs'][k]['id'] for k in self.run['order']]
        j = self.pos
        self.ctx.check(j < len(order) and order[j] == i, 'order', '%s of observer %s instead of %s (step %d, %d done)' % (
            what, i, order[j] if j < len(order) else 'none', self.k, j))
        self.pos += 1
        if self.pos == len(order):
            self.pos = 0
            if what == 'init':
                self.phase = 'update' if self.n else 'finish'
            elif what == 'update':
                self.k += 1
                if self.k == self.n:
                    self.phase = 'finish'
            else:
                self.phase = 'over'

    def same_state(self, q, v, k, what):
        T = self.twin[k]
        for a, b, nm in ((q, T[0], 'position'), (v, T[1], 'velocity')):
            for i in a:
                x, y = np.asarray(a[i]), np.asarray(b[i])
                ok = np.array_equal(x, y, equal_nan=True) if self.run['dyadic'] else phys.close(x, y, 1e-7 * 10 ** k)
                self.ctx.check(ok, 'instant', lambda: '%s: joint %s of %s is not the one of step %d: %s' % (what, nm, i, k, phys.err(x, y)))

    def eps(self):
        if self.run['dyadic']:
            return 0.
        return 8 * np.spacing(max(abs(float(x)) for x in self.run['tt'])) * (1 + self.n)

    def on_update(self, spec, dt):
        ck, w, run = self.ctx.check, self.w, self.run
        i, k = spec['id'], self.k
        if self.fault('obs-update', i, k):
            self.raise_()
        ck(self.phase == 'update', 'order', 'observer %s updated %s' % (i, {'init': 'before all observers are initialised', 'finish': 'after the last step'}.get(self.phase, self.phase)))
        self.expect(i, 'update')
        t0, t1 = float(run['tt'][k]), float(run['tt'][k + 1])
        e = self.eps()
        ck(abs(dt - (t1 - t0)) <= e, 'dt', 'observer %s updated with dt=%r in step %d from %r to %r' % (i, dt, k, t0, t1))
        ck(abs(float(w.current_time) - t0) <= e, 'clock', 'observer %s updated at %r in step %d from %r to %r' % (i, w.current_time, k, t0, t1))
        ck(len(self.probe.calls) == self.ncall0 + k + 1, 'controllers', 'observer %s updated in step %d after %d controller updates' % (i, k, len(self.probe.calls) - self.ncall0))
        ck(self.probe.calls[-1][0] == dt, 'controllers-dt', 'controllers updated with %r, observers with %r' % (self.probe.calls[-1][0], dt))
        for cid, c in self.st.cons.items():
            ck(c.n_update - self.ncon0[cid] == k + 1 or not self.st.enabled[cid], 'constraints', 'observer %s updated in step %d after %d updates of constraint %s' % (
                i, k, c.n_update - self.ncon0[cid], cid))
        q, v = self.st.sim.state()
        self.same_state(q, v, k, 'update of %s in step %d' % (i, k))
        self.judge(q, v, dt, i, k)
        self.ctx.log('update', i, k, float(dt), w.gvel)
        self.nup += 1
        if spec['kind'] == 'nested' and spec['where'] == 'update':
            self.nested(spec)

    def judge(self, q, v, dt, i, k):
        """everything which can be read belongs to this instant"""
        ck, w, sim = self.ctx.check, self.w, self.st.sim
        K = sim.kin(q, v)
        if max([np.abs(x).max(initial=0) for x in v.values()] + [0]) > 1e3:
            return
        what = 'read by %s in step %d' % (i, k)

        def same(name, a, b, tol=1e-8):
            ck(phys.close(a, b, tol), 'stale-' + name, lambda: '%s %s: %s' % (name, what, phys.err(a, b)))
        same('gvel', w.gvel, sim.tree.stack(K, v))
        M, B = sim.tree.mass(K), sim.tree.visc(K)
        same('mass', w.mass, M)
        same('viscosity', w.viscosity, B)
        same('nleffects', w.nleffects @ w.gvel, sim.tree.bias(K, w.gvel), 1e-7)
        for b, o in sim.bodies.items():
            same('pose', o.pose, K.H[b])
            same('twist', o.twist, K.T[b])
            same('jacobian', o.jacobian, K.J[b])
        for f, o in sim.frames.items():
            same('frame pose', o.pose, K.H[sim.fbody[f]] @ sim.fH[f])

        class S:
            pass
        s = S()
        s.K, s.q, s.v, s.dt = K, q, v, dt
        F, Z = self.st.ref_forces(s)
        A = M / dt + B + w.nleffects - Z
        if np.linalg.cond(A) < 1e8:
            same('admittance', w.admittance @ A, np.eye(K.n), 1e-6)
            for c in self.st.cons.values():
                if c.is_enabled():
                    F = F + c.gforce
            same('gforce', w.gforce, F, 1e-6)

    def on_finish(self, spec):
        if self.fault('obs-finish', spec['id']):
            self.raise_()
        ck = self.ctx.check
        ck(self.phase == 'finish', 'order', 'observer %s finished %s' % (spec['id'], {'update': 'in step %d of %d' % (self.k, self.n)}.get(self.phase, 'while in ' + self.phase)))
        self.expect(spec['id'], 'finish')
        t = float(self.run['tt'][-1])
        ck(abs(float(self.w.current_time) - t) <= self.eps(), 'finish-clock', 'observer %s finished at %r instead of %r' % (spec['id'], self.w.current_time, t))
        q, v = self.st.sim.state()
        self.same_state(q, v, self.n, 'finish of ' + spec['id'])
        if spec['kind'] == 'nested' and spec['where'] == 'finish':
            self.nested(spec)

    # -- nested simulation: another world inside a callback
    def nested(self, spec):
        self.ctx.count('nested')
        core, bench = self.core, self
        from arboris.joints import RzJoint
        w = core.World()
        j = RzJoint(gpos=[.1], gvel=[1.])
        w.add_link(w.ground, j, core.Body(mass=np.diag([1., 1., 1., 2., 2., 2.])))
        calls = []

        class In(core.Observer):
            def init(self, world, timeline):
                calls.append('i')

            def update(self, dt):
                calls.append('u%r' % float(w.current_time))

            def finish(self):
                calls.append('f')
        t = spec['times']
        core.simulate(w, t, (In(),))
        self.ctx.check(calls == ['i'] + ['u%r' % x for x in t[:-1]] + ['f'], 'nested', 'a simulation run by an observer made the calls %s' % calls)
        self.ctx.check(float(j.gvel[0]) == 1. and float(w.current_time) == t[-1], 'nested-state', 'a simulation run by an observer ended at %r with velocity %r' % (
            w.current_time, j.gvel[0]))

    # -- one call of simulate
    def collection(self, run):
        o = [self.obs[self.plan['obs'][k]['id']] for k in run['order']]
        c = run['coll']
        if c == 'tuple':
            return tuple(o)
        if c == 'dict':
            return dict(('k%d' % i, x) for i, x in enumerate(o))
        if c == 'values':
            return dict(('k%d' % i, x) for i, x in enumerate(o)).values()
        if c == 'named':
            return self.core.NamedObjectsList(o)
        if c == 'iter':
            return iter(o)
        if c == 'gen':
            return (x for x in o)
        return o

    def simulate(self, run, twin):
        from arboris import core
        ctx, w = self.ctx, self.w
        t = list(run['times'])
        if run['cont'] and not isinstance(t[0], int):
            t = [x - t[0] + float(w.current_time) for x in t]
        tt = {'list': lambda: list(t), 'tuple': lambda: tuple(t), 'array': lambda: np.array(t), 'iarray': lambda: np.array(t), 'range': lambda: range(t[0], t[0] + len(t))}[run['typ']]()
        if run['again'] == 'buffer' and isinstance(self.buf, np.ndarray) and self.buf.shape == tt.shape and self.buf.dtype == float:
            # the user computes the new timeline in the array of the previous one
            self.buf[:] = tt
            tt = self.buf
            ctx.count('same-buffer')
        self.buf = tt if run['typ'] == 'array' else None
        self.run = dict(run, tt=[float(x) for x in tt])
        self.n = len(t) - 1
        self.k, self.pos, self.nup = 0, 0, 0
        self.phase = 'init' if run['order'] else 'none'
        self.fired = False
        self.ninit0, self.ncall0 = self.probe.ninit, len(self.probe.calls)
        self.ncon0 = {c: x.n_update for c, x in self.st.cons.items()}
        if float(w.current_time) != float(tt[0]):
            ctx.count('clock-mismatch')
        self.twin = twin.states(self.st.sim.state(), self.run['tt'])
        if self.twin is None:
            ctx.count('blown-up')
            return False
        ctx.count('coll:' + {'gen': 'iter', 'values': 'dict'}.get(run['coll'], run['coll']))
        if run['dyadic']:
            ctx.count('exact')
        if self.n == 0:
            ctx.count('no-step')
        f = run['fault']
        hook = engine.inject_at_line(ctx, f['n'], f['exc']) if f is not None and f['kind'] == 'line' else None
        ni = len(ctx.injected)
        try:
            if hook:
                hook.__enter__()
            try:
                with sut(ctx, 'simulate'):
                    o = self.collection(run)
                    if run['none']:
                        ctx.count('coll:none')
                        core.simulate(w, tt)
                    elif run['kw']:
                        core.simulate(w, tt, observers=o)
                    else:
                        core.simulate(w, tt, o)
            finally:
                if hook:
                    hook.__exit__()
        except BaseException as e:
            if not any(e is i for i in ctx.injected):
                raise
            ctx.count('aborted')
            return True
        if len(ctx.injected) > ni:
            return True             # the library handled the fault
        ctx.check(self.phase in ('over', 'none'), 'incomplete', 'simulate returned but its observers are in %s, %d of %d steps' % (self.phase, self.k, self.n))
        ctx.check(len(self.probe.calls) - self.ncall0 == self.n, 'steps', '%d steps for %d intervals' % (len(self.probe.calls) - self.ncall0, self.n))
        ctx.check(abs(float(w.current_time) - self.run['tt'][-1]) <= self.eps(), 'final-clock', 'the clock is at %r after a run to %r' % (w.current_time, self.run['tt'][-1]))
        q, v = self.st.sim.state()
        self.same_state(q, v, self.n, 'after the run')
        ctx.steps += self.n
        ctx.sim_time += self.run['tt'][-1] - self.run['tt'][0]
        if len(run['order']) > 1 and self.n > 1:
            ctx.nontrivial = True
        return True


class Twin:
    """the same world stepped by hand"""

    def __init__(self, plan, ctx):
        self.st = cons.ConStepper(dict(model=plan['model'], controllers=plan['controllers'], constraints=plan['constraints'], steps=[1e-3]), ctx)

    def states(self, qv, tt):
        w, sim = self.st.w, self.st.sim
        engine.set_clock(w, tt[0])
        for i, j in sim.joints.items():
            if sim.tree.links[i].kind != 'Fixed':
                if not np.all(np.isfinite(qv[0][i])):
                    return None
                j.gpos[:] = qv[0][i]
                j.gvel[:] = qv[1][i]
        w.init()
        out = [sim.state()]
        try:
            for t in tt[1:]:
                dt = t - w.current_time
                w.update_dynamic()
                w.update_controllers(dt)
                w.update_constraints(dt)
                w.integrate(dt)
                out.append(sim.state())
                if not max([np.abs(x).max(initial=0) for x in out[-1][1].values()] + [0]) < 1e3:
                    return None
        except (np.linalg.LinAlgError, AssertionError):
            return None
        return out


def execute(plan, ctx):
    with sut(ctx, 'building'):
        B = Bench(plan, ctx)
    twin = Twin(plan, ctx)
    nf = 0
    for k, run in enumerate(plan['runs']):
        if k:
            ctx.count('rerun')
        if not B.simulate(run, twin):
            return
        nf += B.fired
        ctx.sig(run['coll'], run['typ'], B.n, len(run['order']), tuple(sorted(o['kind'] for o in plan['obs'])), nf)
        ctx.log('run', k, B.k, float(B.w.current_time))
