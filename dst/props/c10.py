"""C10: independent worlds never influence one another."""
import gc
import os
import pickle
import subprocess
import sys
import threading
import math
import numpy as np
from .. import phys, ref, model, cons, engine
from ..engine import Violation, HarnessError
from ..model import L

ID = 'C10'
LEVEL = 'exploration'
TECHNIQUE = ('a seeded thread scheduler preempts several simulations at any executed line of the library, with neighbours failing, being rebuilt, sharing '
             'the arrays they were given or having them overwritten; every trajectory and record against the same simulation alone in a pristine process')
NOTE = ('Sampled worlds and interleavings, one thread running at a time (line granularity; a switch inside one numpy call cannot be expressed). The comparison is '
        'bit for bit. "Whatever ran before" is the same simulations run again alone after all the others, and a share of the runs repeats them in a new '
        'interpreter with another hash seed.')
RUNS_QUICK = 1000
RUNS_THOROUGH = 25000
RULE = ('one run = 2 to 4 worlds, each simulated alone in its own pristine process, then together under one thread schedule, then again alone; non-trivial when '
        'a switch happened inside the library; distinct by event-log digest')
STATES = 'tuples (function where a thread was preempted, function where the next one resumed)'
REAL = ['arboris.core', 'arboris.constraints', 'arboris.controllers', 'arboris.joints', 'arboris.collisions', 'arboris.observers recorders', 'arboris.robots', 'numpy',
        'threads', 'fork and new interpreters']
STUB = ['thread scheduler (one baton, seeded)', 'user controllers and constraints (scripted)']
ASSUMPTIONS = ['the worlds share no object by the user\'s choice except input arrays', 'single-threaded BLAS']
PROBES = ['switch', 'move', 'neighbour-failed', 'rebuilt', 'pool', 'scribble', 'hashseed', 'robot', 'mode:sim', 'mode:man']
RUN_TIMEOUT = 240

ROBOTS = ['simplearm', 'snake', 'human36', 'icub', 'shapes']


def gen_job(r):
    n = r.randint(1, 6) if r.random() < .98 else 20
    dt = r.choice([1e-3, 5e-3, 0.01]) if n < 20 else 1e-3
    times = [r.choice([0., 0., 1.5])]
    for _ in range(n):
        times.append(times[-1] + dt * r.choice([1., 1., r.uniform(.3, 2.)]))
    job = dict(times=times, mode=r.choice(['sim', 'man']), fault=None, rebuild=False, scribble=r.random() < .25)
    if r.random() < .22:
        kind = r.choice(ROBOTS)
        k = r.randint(1, 3)
        job['robot'] = dict(kind=kind, size=r.uniform(0.5, 2.), n=k, fixed=r.random() < .5, weight=r.random() < .7,
                            v=[r.uniform(-1, 1) for _ in range(6)])
        if kind in ('human36', 'icub'):
            job['times'] = times[:2]
    else:
        kinds = r.choice([[], ['limits'], ['contact'], ['limits', 'contact'], ['ball'], ['user'], ['contact', 'contact', 'limits']])
        if kinds:
            m, cs = cons.gen_scene(r, kinds, 1, 3, bmax=3)
        else:
            m, cs = model.gen_model(r, nmin=1, nmax=4, visc=0.4, frames=2), []
        for c in cs:
            if c['type'] == 'user' and c['law'] == 'restless':
                c['law'] = 'damper'
        job.update(model=m, constraints=cs, controllers=phys.gen_controllers(r, m, sym=True, user=0.2))
        light = [b['id'] for b in m['bodies'] if b.get('mass') is None]
        if r.random() < .3:
            # values set in place in the matrices of the bodies
            job['fill'] = [[i, L(model.rnd_mass6(r)), 'mass'] for i in light[:1]] + [[b['id'], L(model.rnd_visc(r)), 'viscosity'] for b in m['bodies'] if b.get('visc') is None][:2]
        if r.random() < .5:
            # the user places moving frames between the steps
            job['moves'] = [[r.randrange(n), r.randrange(4), L(model.rnd_H(r, 1.))] for _ in range(r.randint(1, 5))]
    u = r.random()
    if u < .3:
        job['fault'] = dict(n=int(math.exp(r.uniform(0, math.log(6000)))), exc=r.choice(phys.FAULT_KINDS))
    elif u < .45:
        job['rebuild'] = True
    return job


def generate(r, tier):
    jobs = [gen_job(r) for _ in range(r.choice([2, 2, 2, 3, 3, 4]))]
    if r.random() < .35:
        # the same model with other values, or twice the same world
        import copy
        j = copy.deepcopy(jobs[0])
        j['fault'], j['rebuild'] = jobs[1]['fault'], jobs[1]['rebuild']
        if r.random() < .6:
            for b in j.get('model', {}).get('bodies', ()):
                if b.get('mass') is not None:
                    b['mass'] = L(np.array(b['mass']) * 2.)
                b['gvel'] = [int(-x) if b.get('int') else -x for x in b['gvel']]
            for c in j.get('constraints', ()):
                if c['type'] == 'contact':
                    c['mu'] = c['mu'] * 0.5 + 0.1
        jobs[1] = j
    grain = r.choice(['line', 'line', 'line', 'step'])
    hi = r.choice([3, 20, 200, 2000])
    sched = [[1 + int(math.exp(r.uniform(0, math.log(hi)))), r.randrange(8)] for _ in range(r.choice([8, 40, 120]))]
    return dict(jobs=jobs, grain=grain, sched=sched, pool=r.random() < .4, hashseed=r.randrange(1, 4000) if r.random() < .03 else None,
                inside=r.random() < .65, gc=r.random() < .5, decoys=r.choice([0, 1, 2, 4, 8]))


def summary(p):
    return dict(jobs=[(j['robot']['kind'] if 'robot' in j else [b['joint'] for b in j['model']['bodies']],
                       [c['type'] for c in j.get('constraints', ())], j['mode'], bool(j['fault']), j['rebuild']) for j in p['jobs']],
                grain=p['grain'], pool=p['pool'])


def build_robot(job, ctx):
    from arboris import core, controllers
    rb = job['robot']
    w = core.World('w')
    s = rb['size']
    if rb['kind'] == 'simplearm':
        from arboris.robots.simplearm import add_simplearm
        for i in range(rb['n']):
            add_simplearm(w, name='a%d' % i, lengths=(0.5 * s, 0.4 * s, 0.2), masses=(1., s, .2))
    elif rb['kind'] == 'snake':
        from arboris.robots.snake import add_snake
        add_snake(w, rb['n'] + 1, lengths=[s * (1 + .1 * i) for i in range(rb['n'] + 1)], is_fixed=rb['fixed'])
    elif rb['kind'] == 'human36':
        from arboris.robots.human36 import add_human36
        add_human36(w, height=1.2 + .4 * s, mass=40 * s)
    elif rb['kind'] == 'icub':
        from arboris.robots.icub import add
        add(w, is_fixed=rb['fixed'])
    else:
        from arboris.robots import simpleshapes as S
        S.add_sphere(w, radius=s, mass=s)
        S.add_box(w, (s, .3, .4))
        S.add_cylinder(w, length=s)
        S.add_groundplane(w)
    if rb['weight']:
        w.register(controllers.WeightController())
    w.init()
    k = 0
    for j in w.iterjoints():
        for i in range(j.ndof):
            j.gvel[i] = rb['v'][k % 6] * (1 + .01 * k)
            k += 1
    w.init()
    return w


class Job:
    """one world: built, simulated and observed; everything it produced ends in out"""

    def __init__(self, spec, scribble, injected=None):
        from arboris import core, observers as O
        self.core, self.spec = core, spec
        self.ctx = engine.Ctx(ID)
        if injected is not None:
            self.ctx.injected = injected
        self.out = []
        self.rec = []
        self.scribbling = scribble and spec['scribble']
        own = model.Hand.own
        own.given = [] if self.scribbling else None
        try:
            if 'robot' in spec:
                self.w = build_robot(spec, self.ctx)
                self.cons = []
            else:
                m = spec['model']
                self.st = cons.ConStepper(dict(model=m, controllers=spec['controllers'], constraints=spec['constraints'], steps=[1e-3]), self.ctx)
                self.w = self.st.w
                self.cons = list(self.st.cons.values())
        finally:
            mine, own.given = own.given, None
        if self.scribbling:
            for a in mine:
                a[...] = 77 if a.dtype.kind == 'i' else np.nan
        w = self.w
        for i, M, what in spec.get('fill', ()):
            getattr(self.st.sim.bodies[i], what)[:] = M
            w.init()
        self.joints = list(w.iterjoints())
        self.moving = list(w.itermovingsubframes())
        for j in self.joints:
            self.rec += [O.RecordJointGpos(j), O.RecordJointGvel(j)]
        fr = list(w.iterframes())
        for f in fr[:4]:
            self.rec += [O.RecordFramePose(f), O.RecordFrameTwist(f)]
        for c in self.cons:
            self.rec.append(O.RecordConstForce(c))
        bodies = [b for b in w.iterbodies() if b.mass[5, 5] > 0]
        self.com = []
        if bodies:
            self.rec.append(O.RecordCoMPosition(bodies))
            self.com = [O.CoMObserver(bodies)]
        sh = list(w.itershapes())
        from arboris.collisions import choose_solver
        n = 0
        for i in range(len(sh)):
            for k in range(i):
                if n < 3:
                    try:
                        choose_solver(sh[i], sh[k])
                    except Exception:
                        continue
                    n += 1
                    self.rec.append(O.RecordDistance(sh[i], sh[k]))

    def snap(self, where):
        w = self.w
        x = [np.array([w.current_time]), w.gvel, w.gforce, w.mass, w.nleffects, w.viscosity, w.admittance]
        for j in self.joints:
            x += [np.array(j.gpos, dtype=float, copy=True), np.array(j.gvel, dtype=float, copy=True)]
        self.out.append((where, x))
        if self.com:
            c = self.com[0]
            if where != 'start':
                self.out.append(('com', [c.get_CoMPosition(), c.get_CoMJacobian(), c.get_CoMdJacobian()]))

    def move(self, k):
        """place the moving frames, with arrays which are reused afterwards"""
        for at, i, H in self.spec.get('moves', ()):
            if at == k and self.moving:
                a = model.hand(np.array(H))
                f = self.moving[i % len(self.moving)]
                f.bpose = a
                if self.scribbling:
                    a[...] = np.nan
                self.out.append(('moved', [f.bpose]))

    def scribble(self):
        """overwrite everything the accessors hand out"""
        w = self.w
        for a in (w.gvel, w.gforce, w.mass, w.viscosity, w.nleffects, w.admittance, w.up):
            a[...] = np.nan if a.dtype.kind == "f" else 99
        for j in self.joints:
            for nm in ('pose', 'ipose', 'adjoint', 'iadjoint', 'adjacency', 'jacobian', 'djacobian', 'twist', 'idadjoint'):
                a = getattr(j, nm, None)
                if isinstance(a, np.ndarray):
                    a[...] = np.nan if a.dtype.kind == "f" else 99
        for c in self.cons:
            try:
                for a in (c.jacobian, c.gforce):
                    a[...] = np.nan if a.dtype.kind == "f" else 99
            except TypeError:
                pass
        for c in w.getcontrollers():
            if type(c).__module__ == 'arboris.controllers':
                for a in c.update(1e-3):
                    a[...] = np.nan if a.dtype.kind == "f" else 99
        if self.com:
            c = self.com[0]
            for a in (c.get_CoMPosition(), c.get_CoMJacobian(), c.get_CoMdJacobian()):
                a[...] = np.nan if a.dtype.kind == "f" else 99
        for f in w.iterframes():
            for nm in ('bpose', 'pose', 'twist', 'jacobian', 'djacobian'):
                try:
                    a = getattr(f, nm)
                except TypeError:
                    continue            # not computed yet
                if a is not None:
                    a[...] = np.nan if a.dtype.kind == "f" else 99

    def go(self, pause):
        w, core = self.w, self.core
        t = self.spec['times']
        engine.set_clock(w, t[0])
        self.out.append(('contents', [np.array([sum(1 for _ in it) for it in (
            w.iterbodies(), w.iterjoints(), w.itersubframes(), w.itermovingsubframes(), w.itershapes(), w.iterconstraints(), w.getcontrollers())])]))
        self.snap('start')
        job = self

        class Watch(core.Observer):
            def __init__(self):
                core.Observer.__init__(self)
                self.k = 0

            def init(self, world, timeline):
                pass

            def update(self, dt):
                job.snap('step%d' % self.k)
                self.k += 1
                if hasattr(job, 'st'):
                    job.st.k = self.k
                job.move(self.k)
                pause()

            def finish(self):
                pass
        obs = self.rec + self.com + [Watch()]
        if self.spec['mode'] == 'sim':
            if self.scribbling:
                w.init()
                w.update_dynamic()
                self.scribble()
            core.simulate(w, t, obs)
        else:
            w.init()
            for o in obs:
                o.init(w, t)
            for k in range(len(t) - 1):
                dt = t[k + 1] - t[k]
                w.update_dynamic()
                w.update_controllers(dt)
                w.update_constraints(dt)
                for o in obs:
                    o.update(dt)
                w.integrate(dt)
                pause()
                if self.scribbling:
                    kept = True
                    for r in self.rec:
                        if type(r).__name__ in ('RecordFramePose', 'RecordFrameTwist'):
                            rec = r.get_record()
                            i = max([n for n, x in enumerate(rec) if x is not None], default=-1)
                            if i >= 0:
                                rec[i] = np.array(rec[i], copy=True)
                                kept &= r.get_record()[i] is rec[i]
                    if kept:
                        self.scribble()
            for o in obs:
                o.finish()
        self.snap('end')
        for i, r in enumerate(self.rec):
            self.out.append(('record %d %s' % (i, type(r).__name__), [np.array(x, dtype=float) for x in r.get_record()]))


def attempt(spec, pause=lambda: None, scribble=False, injected=None):
    """(out, None) or (partial out, exception)"""
    job = None
    try:
        job = Job(spec, scribble, injected)
        job.go(pause)
        return job.out, None, job
    except (HarnessError, SystemExit):
        raise
    except Violation as e:
        if job is None or job.ctx.herror is not None:
            if job is not None:
                raise HarnessError(job.ctx.herror)
        return (job.out if job else []), ('Violation', str(e)[:200]), job
    except BaseException as e:
        return (job.out if job else []), (type(e).__name__, e), job


def plain(res):
    out, exc, _ = res
    if exc is not None and not isinstance(exc[1], str):
        import traceback
        tb = traceback.extract_tb(exc[1].__traceback__)
        if tb and not any(f.filename.startswith(engine.PKG) for f in tb):
            raise HarnessError(''.join(traceback.format_exception(exc[1]))[-1500:])
        exc = (exc[0], str(exc[1])[:200])
    return [(n, [np.asarray(a, dtype=float) for a in x]) for n, x in out], exc


def differ(a, b):
    """None, or what differs between two results"""
    (oa, ea), (ob, eb) = a, b
    if ea != eb:
        return 'exception %s instead of %s' % (eb, ea)
    if len(oa) != len(ob):
        return '%d entries instead of %d' % (len(ob), len(oa))
    for (na, xa), (nb, xb) in zip(oa, ob):
        if na != nb or len(xa) != len(xb):
            return 'entry %s of length %d instead of %s of length %d' % (nb, len(xb), na, len(xa))
        for i, (p, q) in enumerate(zip(xa, xb)):
            if p.shape != q.shape or not np.array_equal(p, q, equal_nan=True):
                return '%s item %d: %s instead of %s' % (na, i, np.ravel(q)[:6], np.ravel(p)[:6])
    return None


def decoy(spec):
    """a world built alike, with other contents: it lives at the same addresses just before"""
    import copy
    d = copy.deepcopy(spec)
    d['fault'], d['times'] = None, spec['times'][:2]
    some = L(ref.mass_matrix(1., [.1, .2, .25], np.eye(3), np.zeros(3)))
    for b in d.get('model', {}).get('bodies', ()):
        b['mass'] = some if b.get('mass') is None else None if len(d['model']['bodies']) > 1 else L(np.array(b['mass']) * 3)
        b['visc'] = L(np.eye(6) * 5)
        b['gpos'] = [-x for x in b['gpos']] if b['joint'] != 'Free' else b['gpos']
    for f in d.get('model', {}).get('frames', ()):
        H = np.array(f['H'])
        H[:3, 3] *= -1
        f['H'] = L(H)
    for c in d.get('constraints', ()):
        if c['type'] == 'contact':
            c['mu'] = c['mu'] + .3
    if 'robot' in d:
        d['robot']['size'] *= 1.3
    return d


class Stop(BaseException):
    pass


class Scheduler:
    """a baton passed between threads at line or step granularity"""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        n = len(plan['jobs'])
        self.ev = [threading.Event() for _ in range(n)]
        self.done = threading.Event()
        self.alive = [True] * n
        self.res = [None] * n
        self.pos = 0
        self.left = 0
        self.running = None
        self.where = ['start'] * n
        self.stop = False
        self.error = None
        self.lines = 0
        self.switches = 0

    def next_slice(self, cur):
        s = self.plan['sched']
        n, to = s[self.pos % len(s)]
        self.pos += 1
        self.left = n
        alive = [i for i in range(len(self.alive)) if self.alive[i]]
        if not alive:
            return None
        return alive[to % len(alive)]

    def switch(self, me, where):
        nxt = self.next_slice(me)
        if nxt == me:
            return
        self.where[me] = where
        self.ctx.count('switch')
        self.switches += 1
        self.ctx.log('sw', me, nxt, where)
        if len(self.ctx.sigs) < 400:
            self.ctx.sig(where, self.where[nxt])
        self.running = nxt
        self.ev[me].clear()
        self.ev[nxt].set()
        self.ev[me].wait()
        if self.stop:
            raise Stop()

    def thread(self, i):
        spec = self.plan['jobs'][i]
        self.ev[i].wait()
        if self.stop:
            return
        try:
            self.res[i] = self.body(i, spec)
        except Stop:
            return
        except BaseException as e:
            import traceback
            self.error = traceback.format_exc()
        self.alive[i] = False
        nxt = self.next_slice(i)
        if self.error is not None or nxt is None:
            self.done.set()
        else:
            self.running = nxt
            self.ev[nxt].set()

    def body(self, i, spec):
        sched, me = self, i
        st = dict(fault=spec['fault'], count=0, e=None)
        inj = []

        def on_line(n, frame):
            sched.lines += 1
            f = st['fault']
            if f is not None:
                st['count'] += 1
                if st['count'] >= f['n']:
                    st['fault'] = None
                    st['e'] = engine.make_exc(f['exc'])
                    inj.append(st['e'])
                    sched.ctx.count('fault:' + f['exc'])
                    sched.ctx.count('neighbour-failed')
                    sched.ctx.log('fail', me, frame.f_code.co_name)
                    sched.ctx.note('world %d fails (%s) in %s' % (me, f['exc'], frame.f_code.co_name))
                    raise st['e']
            if sched.plan['grain'] == 'line':
                sched.left -= 1
                if sched.left <= 0:
                    sched.switch(me, frame.f_code.co_name)

        def pause():
            if sched.plan['grain'] == 'step':
                sched.switch(me, 'step')
        with engine.LineHook(on_line):
            if spec['rebuild']:
                a = attempt(decoy(spec), pause, True, inj)
                if isinstance(a[1], tuple) and a[1][0] == 'Stop':
                    raise Stop()
                sched.ctx.count('rebuilt')
                del a
                if sched.plan['gc']:
                    gc.collect()
            while True:
                r = attempt(spec, pause, True, inj)
                if r[1] is not None and isinstance(r[1][1], Stop):
                    raise Stop()
                if st['e'] is not None:
                    # the world failed: it is thrown away and built again
                    st['e'] = None
                    del r
                    if sched.plan['gc']:
                        gc.collect()
                    continue
                return plain(r)

    def run(self):
        ths = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(len(self.ev))]
        for t in ths:
            t.start()
        first = self.next_slice(None)
        self.running = first
        self.ev[first].set()
        self.done.wait()
        self.stop = True
        for e in self.ev:
            e.set()
        for t in ths:
            t.join(10)
        if self.error is not None:
            raise HarnessError(self.error[-1500:])


def solo_child(spec):
    """the simulation alone, in a process which has not built anything yet"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(plain(attempt(spec)))
            except BaseException as e:
                import traceback
                data = pickle.dumps(traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError('the process of a solo run died')
    res = pickle.loads(data)
    if isinstance(res, str):
        raise HarnessError(res[-1500:])
    return res


CHILD = '''
import sys, pickle
sys.path.insert(0, %r)
from dst import engine
engine.import_sut()
from dst.props import c10
jobs = pickle.loads(sys.stdin.buffer.read())
out = pickle.dumps([c10.plain(c10.attempt(j)) for j in jobs])
sys.stdout.buffer.write(b'RESULT' + out)
'''


def other_interpreter(plan):
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, PYTHONHASHSEED=str(plan['hashseed']))
    p = subprocess.run([sys.executable, '-c', CHILD % here], input=pickle.dumps(plan['jobs']), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    i = p.stdout.find(b'RESULT')
    if p.returncode != 0 or i < 0:
        raise HarnessError('other interpreter: ' + p.stderr.decode()[-1200:])
    return pickle.loads(p.stdout[i + 6:])


def execute(plan, ctx):
    # (imports hold a lock: not to be preempted)
    import arboris.robots.simplearm, arboris.robots.snake, arboris.robots.human36, arboris.robots.icub, arboris.robots.simpleshapes    # noqa
    jobs = plan['jobs']
    solo = [solo_child(j) for j in jobs]
    for j, s in zip(jobs, solo):
        ctx.count('mode:' + j['mode'])
        if 'robot' in j:
            ctx.count('robot')
        if s[1] is not None:
            ctx.count('failed-alone')
        if j['scribble']:
            ctx.count('scribble')
        for n, x in s[0]:
            ctx.log(n, *x)
            if n == 'moved':
                ctx.count('move')
        ctx.sim_time += j['times'][-1] - j['times'][0]
        ctx.steps += len(j['times']) - 1
    if plan['pool']:
        ctx.count('pool')
        model.Hand.pool = {}
        given = model.Hand.given = []
        # an array which is overwritten by one user may not be shared
        plan = dict(plan, jobs=[dict(j, scribble=False) for j in jobs])
    try:
        S = Scheduler(plan, ctx)
        S.run()
    finally:
        model.Hand.pool = model.Hand.given = None
    ctx.nontrivial = S.switches > 0
    for i, s in enumerate(solo):
        d = differ(s, S.res[i])
        ctx.check(d is None, 'interference', lambda: 'world %d simulated with its neighbours is not what it is alone: %s' % (i, d))
    if plan['pool']:
        for a, b in given:
            ctx.check(np.array_equal(a, b, equal_nan=True), 'input-modified', lambda: 'an array handed in was modified: %s became %s' % (np.ravel(b)[:6], np.ravel(a)[:6]))
    # alone again, in this process where everything else ran before
    if plan['inside']:
        for i, j in enumerate(jobs):
            for k in range(plan['decoys']):
                attempt(decoy(j))
                if plan['gc']:
                    gc.collect()
            d = differ(solo[i], plain(attempt(j)))
            ctx.check(d is None, 'history', lambda: 'world %d simulated alone after other simulations: %s' % (i, d))
    if plan['hashseed'] is not None:
        ctx.count('hashseed')
        for i, s in enumerate(other_interpreter(plan)):
            d = differ(solo[i], s)
            ctx.check(d is None, 'process', lambda: 'world %d simulated in another interpreter (hash seed %d): %s' % (i, plan['hashseed'], d))
