"""C20: errors, memory and cost do not build up over long runs."""
import gc
import math
import numpy as np
from .. import phys, ref, model, engine
from ..engine import sut, cb, InjectedError
from ..phys import close, err
from ..model import L

ID = 'C20'
LEVEL = 'exploration'
TECHNIQUE = ('seeded long histories (hundreds to thousands of steps) of driven mechanisms, rolling and resting bodies with aborted steps, re-initialisations, clock and speed changes; '
             'every pose compared with an independently accumulated motion at tolerances which do not grow, kept objects and executed lines counted')
NOTE = ('Sampled histories of at most a few thousand steps: a growth which stays below 1e-12 over thousands of steps is not seen. Static equilibrium is required of '
        'resolutions that converged only. No proof of absence.')
RUNS_QUICK = 500
RUNS_THOROUGH = 6000
RULE = ('one run = one mechanism driven through a script of steady motions (per-step rotations from 1e-7 to 3 rad, most of them around the thresholds of series), or a sphere '
        'rolling and sliding on a plane, or a body resting on points of contact; aborted steps, init calls and rests in between; non-trivial when at least 200 steps were made; '
        'distinct by event-log digest')
STATES = 'tuples (scenario, joints, per-step rotation decade, number of steps decade, ways to step)'
REAL = ['arboris.core', 'arboris.joints', 'arboris.twistvector', 'arboris.homogeneousmatrix', 'arboris.constraints', 'arboris.collisions', 'arboris.controllers', 'numpy']
STUB = ['the drive (harness-defined controller)', 'timeline (scripted)', 'user actions (scripted)']
ASSUMPTIONS = ['rounding errors of one step are below 1e-13']
PROBES = ['drive', 'roll', 'rest', 'whole', 'restarted', 'free-joint', 'small-rotations', 'large-rotations', 'aged', 'aborted-step', 'init', 'memory-sampled', 'lines-sampled', 'simulate', 'manual',
          'touching', 'sliding']
RUN_TIMEOUT = 240


def rnd_theta(r):
    """rotation per step"""
    u = r.random()
    if u < .4:
        return r.uniform(5e-4, 1.1e-3)
    if u < .55:
        return 10 ** r.uniform(-7, -3.3)
    if u < .85:
        return 10 ** r.uniform(-3, -1)
    return r.uniform(.1, 3.)


def rnd_drive(r, b, dt):
    k = b['joint']
    th = rnd_theta(r)
    lin = r.choice([0., .1, 2.])
    if k == 'Free':
        return [float(x) for x in model.rnd_axis(r) * th / dt] + [lin * r.uniform(-1, 1) for _ in range(3)]
    if k.startswith('T'):
        return [lin * r.uniform(-1, 1) for _ in range(ref.NDOF[k])]
    return [r.uniform(-1, 1) * th / dt for _ in range(ref.NDOF[k])]


def gen_faults(r, N):
    return [dict(at=r.randrange(1, N), kind=r.choice(['error', 'interrupt', 'memory', 'linalg']), n=r.randint(1, 900)) for _ in range(r.choice([0, 0, 1, 3]))]


def generate(r, tier):
    big = 3 if tier == 'thorough' else 1
    dt = r.choice([1e-4, 1e-3, 1e-3, 1e-2])
    u = r.random()
    N = r.choice([250, 400, 800, 1500]) * big
    if r.random() < .05:
        N *= 3
    p = dict(dt=dt, N=N, mode=r.choice(['manual', 'simulate', 'whole']), jitter=r.choice([0., 0., .3]), faults=gen_faults(r, N),
             inits=sorted(r.sample(range(1, N), r.choice([0, 0, 1, 4]))), seed=r.randrange(1 << 30), t0=r.choice([0., 0., 0., 100., r.uniform(-1, 1) * 10 ** r.uniform(0, 4)]))
    if u < .68:
        m = model.gen_model(r, nmin=1, nmax=3, root='Free' if r.random() < .8 else None, massless=.1, visc=.2, frames=2, big=0)
        seg, k = [], 0
        while k < N:
            n = r.choice([N, N, N // 2, N // 4, r.randint(2, 60)])
            seg.append(dict(n=n, v={b['id']: rnd_drive(r, b, dt) for b in m['bodies'] if b['joint'] != 'Fixed'}))
            k += n
        aged = None
        if m['bodies'][0]['joint'] == 'Free' and r.random() < .35:
            # the state comes from a text file with ten digits
            aged = r.choice([-1, 1]) * r.uniform(3e-10, 9.6e-10)
        p.update(kind='drive', model=m, segs=seg, aged=aged, weight=r.random() < .5)
    elif u < .88:
        tilt = r.choice([0., 0., r.uniform(0, .5)])
        p.update(kind='roll', rad=r.uniform(.05, .5), mass=r.uniform(.2, 5.), mu=r.choice([0., .1, .5, 1.2]), tilt=tilt, az=r.uniform(-3, 3), h=r.choice([0., 0., 1e-3, .05]),
                 v=[r.gauss(0, 1) * x for x in (5, 5, 5, 1, 1, 1)], R=L(model.rnd_rot(r)), off=[r.uniform(-1, 1) for _ in range(3)], swap=r.random() < .5)
        p['dt'] = min(dt, 5e-3)
    else:
        p['N'] = N = r.choice([60, 120, 200]) * big
        p['inits'] = []
        p['faults'] = [f for f in gen_faults(r, N)]
        tilt = r.choice([0., 0., r.uniform(0, .4)])
        k = r.choice([1, 3, 3, 4])
        p.update(kind='rest', mass=r.uniform(.2, 5.), I=r.uniform(.3, 1.), tilt=0. if k == 1 else tilt, az=r.uniform(-3, 3), mu=math.tan(tilt) * r.uniform(2.5, 4.) + r.uniform(.1, .6),
                 k=k, rad=r.uniform(.15, .5), phase=r.uniform(0, 6), com=r.uniform(.05, .3), R=L(model.rnd_rot(r)), off=[r.uniform(-1, 1) for _ in range(3)],
                 spheres=r.choice([0., 0., r.uniform(.02, .1)]), swap=[r.random() < .5 for _ in range(k)])
        p['dt'] = r.choice([1e-3, 5e-3, 1e-2])
    return p


def summary(p):
    return dict(kind=p['kind'], steps=p['N'], dt=p['dt'], mode=p['mode'], faults=[(f['at'], f['kind']) for f in p['faults']], inits=p['inits'],
                joints=[b['joint'] for b in p['model']['bodies']] if 'model' in p else None, aged=p.get('aged'))


def shrinks(p):
    if p['N'] > 20:
        for n in (p['N'] // 2, p['N'] * 3 // 4, p['N'] - 10):
            yield dict(p, N=n)
    for i in range(len(p['faults'])):
        yield dict(p, faults=p['faults'][:i] + p['faults'][i + 1:])
    if p['inits']:
        yield dict(p, inits=[])
        yield dict(p, inits=p['inits'][1:])
    if p['jitter']:
        yield dict(p, jitter=0.)
    if p['mode'] != 'manual':
        yield dict(p, mode='manual')
    if p['t0']:
        yield dict(p, t0=0.)
    if p['kind'] == 'drive':
        if len(p['segs']) > 1:
            yield dict(p, segs=[dict(p['segs'][0], n=p['N'])])
            yield dict(p, segs=p['segs'][1:] + [dict(p['segs'][-1], n=p['N'])])
        if p['aged']:
            yield dict(p, aged=None)
        if p['weight']:
            yield dict(p, weight=False)
        m = p['model']
        if m['frames']:
            yield dict(p, model=dict(m, frames=[]))
        if len(m['bodies']) > 1:
            last = m['bodies'][-1]['id']
            if not any(b['parent'] == last for b in m['bodies']):
                yield dict(p, model=dict(m, bodies=m['bodies'][:-1], frames=[f for f in m['frames'] if f['body'] != last]))


def weigh():
    """what the process holds: objects and places in containers"""
    gc.collect()
    n = c = 0
    for o in gc.get_objects():
        n += 1
        if type(o) in (list, dict, set):
            c += len(o)
    return n, c


class Count(engine.LineHook):
    def __init__(self):
        engine.LineHook.__init__(self, lambda n, f: None)


class Run:
    """makes the steps of a long run; the aborted ones are made again"""

    def __init__(self, plan, ctx, w, gs=None):
        from arboris import core
        self.core, self.p, self.ctx, self.w, self.gs = core, plan, ctx, w, gs
        self.k = 0
        self.pending = False
        self.lines = []
        self.rnd = np.random.RandomState(plan['seed'])
        self.faults = {}
        for f in plan['faults']:
            self.faults.setdefault(f['at'], []).append(f)
        ctx.count(plan['mode'])

    def dt(self):
        j = self.p['jitter']
        return self.p['dt'] * (1. if not j else 1 + j * self.rnd.uniform(-1, 1))

    def calls(self, dt):
        w = self.w
        w.update_dynamic()
        w.update_controllers(dt)
        if self.gs:
            w.update_constraints(dt, *self.gs)
        else:
            w.update_constraints(dt)

    def step(self, dt):
        """one step, after the attempts which fail"""
        ctx, w = self.ctx, self.w
        for f in self.faults.pop(self.k, ()):
            n0 = len(ctx.injected)
            with engine.inject_at_line(ctx, f['n'], f['kind']):
                try:
                    with sut(ctx, 'step %d' % self.k):
                        self.calls(dt)
                except BaseException as e:
                    if not any(e is i for i in ctx.injected):
                        raise
                    e.__traceback__ = e.__context__ = None
            if len(ctx.injected) > n0:
                ctx.count('aborted-step')
                ctx.note('step %d aborted' % self.k)
        if self.k in self.p['inits']:
            ctx.count('init')
            with sut(ctx, 'init'):
                w.init()
        with sut(ctx, 'step %d' % self.k):
            if self.p['mode'] != 'manual' and not self.gs:
                t = w.current_time
                self.core.simulate(w, [t, t + dt], [])
                dt = float(t + dt - t)
            else:
                self.calls(dt)
                w.integrate(dt)
        self.done(dt)
        return dt

    def done(self, dt):
        self.k += 1
        self.ctx.steps += 1
        self.ctx.sim_time += dt

    def whole(self, before, after, marks):
        """one simulation for all the steps; it is started again where it was when it fails"""
        from arboris import core
        ctx, w, p, me = self.ctx, self.w, self.p, self
        N = p['N']
        ts = [p['t0']]
        while len(ts) < N + 1:
            ts.append(ts[-1] + self.dt())
        ts = np.array(ts)
        hook = []

        def clock(k):
            ctx.check(abs(w.current_time - ts[k]) <= 4 * np.spacing(np.abs(ts).max()), 'clock',
                      lambda: 'step %d starts at %r, %r in the timeline' % (k, w.current_time, ts[k]))

        def flush():
            if me.pending:
                me.done(me.last)
                me.pending = False
                after(me.k - 1, me.last)

        class Obs(core.Observer):
            def __init__(self):
                core.Observer.__init__(self)
                self.ctx = ctx

            @cb
            def init(self, world, timeline):
                pass

            @cb
            def update(self, dt):
                while hook:
                    c = hook.pop()
                    c.__exit__(None, None, None)
                    me.lines.append(c.n)
                flush()
                clock(me.k)
                me.last = float(dt)
                for f in me.faults.pop(me.k, ()):
                    e = engine.make_exc(f['kind'])
                    ctx.injected.append(e)
                    ctx.count('aborted-step')
                    raise e
                me.pending = True
                before()
                if me.k in marks:
                    hook.append(Count())
                    hook[0].__enter__()

            @cb
            def finish(self):
                flush()

        before()
        obs = [Obs()]
        while self.k < N:
            try:
                with sut(ctx, 'simulate, step %d' % self.k):
                    core.simulate(w, ts[self.k:], obs)
            except BaseException as e:
                if not any(e is i for i in ctx.injected):
                    raise
                e.__traceback__ = e.__context__ = None
                ctx.note('restarted at step %d' % self.k)
                ctx.count('restarted')
            finally:
                while hook:
                    hook.pop().__exit__(None, None, None)
        clock(N)

    def counted(self, dt):
        c = Count()
        with c:
            dt = self.step(dt)
        return dt, c.n


def rigid(ctx, H, what, k, tol=1e-12):
    R = H[:3, :3]
    e = np.abs(R.T @ R - np.eye(3)).max()
    ctx.check(e <= tol, 'not-rigid', lambda: '%s is not a rigid placement any more after %d steps: R^T R is off by %.3g' % (what, k, e))
    ctx.check((H[3] == [0, 0, 0, 1]).all() and np.linalg.det(R) > 0, 'not-rigid', lambda: '%s is not a rigid placement after %d steps' % (what, k))


def execute(plan, ctx):
    dict(drive=drive, roll=roll, rest=rest)[plan['kind']](plan, ctx)
    ctx.count(plan['kind'])
    ctx.nontrivial = ctx.steps >= (200 if plan['kind'] != 'rest' else 50)


def growth(ctx, samples, span, lines=None):
    (a, b, c) = samples
    for i, what in ((0, 'objects'), (1, 'places in containers')):
        ctx.check(not (c[i] - b[i] >= .6 * span and b[i] - a[i] >= .6 * span), 'memory',
                  lambda: '%d then %d more %s are kept after %d more steps each time' % (b[i] - a[i], c[i] - b[i], what, span))
    ctx.count('memory-sampled')
    if lines:
        ctx.check(lines[1] <= 1.5 * lines[0] + 50, 'slower', lambda: 'a step executes %d lines at the end of the run, %d at its beginning' % (lines[1], lines[0]))
        ctx.count('lines-sampled')


def drive(plan, ctx):
    """a mechanism whose velocities are imposed"""
    from arboris import core
    N = plan['N']
    with sut(ctx, 'building the world'):
        sim = model.Sim(plan['model'])
    w = sim.w
    target = [None]
    ids = [b['id'] for b in plan['model']['bodies'] if b['joint'] != 'Fixed']
    if plan['aged']:
        j = sim.joints[plan['model']['bodies'][0]['id']]
        j.gpos[:3, :3] *= (1 + plan['aged'] / 3)
        ctx.count('aged')

    class Drive(core.Controller):
        def __init__(self):
            core.Controller.__init__(self)
            self.ctx = ctx

        @cb
        def init(self, world):
            pass

        @cb
        def update(self, dt):
            K = 1e4 * max(1., np.abs(w.mass).max()) / dt * np.eye(w.ndof)
            v = np.zeros(w.ndof)
            for i in ids:
                v[sim.joints[i].dof] = target[0][i]
            return K @ v, -K
    with sut(ctx, 'building the world'):
        w.register(Drive())
        if plan['weight']:
            from arboris.controllers import WeightController
            w.register(WeightController())
            w.register(WeightController(gravity=3.))
        w.init()
    kind = {b['id']: b['joint'] for b in plan['model']['bodies']}
    if 'Free' in kind.values():
        ctx.count('free-joint')
    q = {i: np.array(sim.joints[i].gpos, dtype=float) for i in ids}
    for i in ids:
        if kind[i] == 'Free':
            U, _, V = np.linalg.svd(q[i][:3, :3])
            q[i][:3, :3] = U @ V
    c = {i: np.zeros_like(q[i]) for i in ids}           # compensation of the sums
    run = Run(plan, ctx, w)
    segs = iter(plan['segs'])
    left = 0
    marks = [N // 4 + 5, N // 4 + 5 + (N * 3 // 8 - 10), N // 4 + 5 + 2 * (N * 3 // 8 - 10)]
    lines = []
    path = 1.
    every = max(1, N // 25)
    samples = [None, None, None]

    def before():
        nonlocal left
        if left == 0:
            s = next(segs, None)
            if s is None:
                left = N
            else:
                target[0], left = s['v'], s['n']
        left -= 1

    def after(k, dt):
        nonlocal path
        for i in ids:
            j = sim.joints[i]
            v = np.array(j.gvel, dtype=float)
            if kind[i] == 'Free':
                q[i] = q[i] @ ref.expse3(v * dt)
                R = q[i][:3, :3]
                q[i][:3, :3] = R @ (3 * np.eye(3) - R.T @ R) / 2
                path += np.abs(v).max() * dt
            else:
                y = dt * v - c[i]
                t = q[i] + y
                c[i] = (t - q[i]) - y
                q[i] = t
        if k % every == 0 or k == N - 1:
            # the first 3 steps may still hold what the aged state had wrong
            for i in ids:
                g = np.array(sim.joints[i].gpos, dtype=float)
                tol = 1e-12 + 4e-15 * (k + 2) + 1e-10 * (path - 1) / path
                if plan['aged']:
                    tol += 4e-9
                if kind[i] == 'Free':
                    rigid(ctx, g, 'the position of a free joint', run.k, 1e-12 + (2e-9 if plan['aged'] else 0.))
                    if plan['aged']:
                        d = np.linalg.det(g[:3, :3]) - 1
                        ctx.check(abs(d) <= abs(plan['aged']) * 1.001 + 1e-14, 'not-rigid', lambda: 'a rotation read with an error of %.4g has an error of %.4g after %d steps' % (plan['aged'], d, run.k))
                    ctx.check(close(g, q[i], tol, 1 + path), 'drift', lambda: 'after %d steps the free joint is off the sum of its motions: ' % run.k + err(g, q[i]))
                else:
                    ctx.check(close(g, q[i], tol, 1 + np.abs(q[i]).max(initial=0)), 'drift', lambda: 'after %d steps the %s joint is off the sum of its motions: ' % (run.k, kind[i]) + err(g, q[i]))
            with sut(ctx, 'update_geometric after %d steps' % run.k):
                w.update_geometric()
            K = sim.tree.kin({i: (q[i] if i in q else np.zeros(0)) for i in kind}, {i: np.zeros(ref.NDOF[kind[i]]) for i in kind}, False)
            size = 1 + max(np.abs(H).max() for H in K.H.values())
            for i in kind:
                H = np.array(sim.bodies[i].pose)
                if not plan['aged']:
                    rigid(ctx, H, 'the pose of a body', run.k)
                amax = max([1.] + [np.abs(q[x]).max(initial=0) for x in ids])
                tol = 3e-12 + 3e-14 * (k + 2) + 1e-10 * (path - 1) / path + 1e-14 * amax * (k + 2) + (4e-8 if plan['aged'] else 0.)
                ctx.check(close(H, K.H[i], tol, size + path), 'drift', lambda: 'after %d steps a body is not where the accumulated motions put it: ' % run.k + err(H, K.H[i]))
            for i, f in sim.frames.items():
                with sut(ctx, 'pose of a frame'):
                    H = np.array(f.pose)
                if not plan['aged']:
                    rigid(ctx, H, 'the pose of a frame', run.k)
            ctx.log(run.k, *[np.array(sim.joints[i].gpos) for i in ids])
        if run.k in marks:
            samples[marks.index(run.k)] = weigh()

    if plan['mode'] == 'whole':
        run.whole(before, after, (2, N - 2))
        lines = run.lines if len(run.lines) > 1 else []
    else:
        while run.k < N:
            before()
            k, dt = run.k, run.dt()
            if k == 2 or k == N - 1:
                dt, n = run.counted(dt)
                lines.append(n)
            else:
                dt = run.step(dt)
            after(k, dt)
    for s in plan['segs'][:3]:
        for i in ids:
            th = np.abs(np.array(s['v'][i])[:3]).max() * plan['dt']
            if kind[i] == 'Free':
                ctx.count('small-rotations' if th < 1e-3 else 'large-rotations' if th > .1 else 'medium-rotations')
            ctx.sig(kind[i], int(math.floor(math.log10(th + 1e-12))), int(math.log10(N) * 2), plan['mode'], bool(plan['aged']))
    if all(samples):
        growth(ctx, samples, marks[1] - marks[0], lines)


def floor_world(plan, ctx):
    """a free body over a tilted plane, given in a frame of any orientation"""
    from arboris import core, joints, shapes
    R = ref.rot(np.array([math.cos(plan['az']), 0, math.sin(plan['az'])]), plan['tilt'])
    n = R @ np.array([0., 1., 0.])
    o = np.array(plan['off'])
    F = np.array(plan['R'])
    w = core.World()
    fr = core.SubFrame(w.ground, ref.mk(F, o))
    nl = F.T @ n
    pl = shapes.Plane(fr, tuple(nl) + (0.,))
    w.register(pl)
    return w, pl, n, o, R


def roll(plan, ctx):
    """a sphere rolling, sliding and spinning on a plane"""
    from arboris import core, joints, shapes, constraints
    from arboris.controllers import WeightController
    N, dt0 = plan['N'], plan['dt']
    m, rad = plan['mass'], plan['rad']
    M = np.diag([.4 * m * rad ** 2] * 3 + [m] * 3)
    with sut(ctx, 'building the world'):
        w, pl, n, o, Rp = floor_world(plan, ctx)
        b = core.Body(mass=M)
        v = np.array(plan['v'])
        Rb = np.array(plan['R'])
        v[3:] = Rb.T @ v[3:]
        j = joints.FreeJoint(gpos=ref.mk(Rb, o + n * (rad + plan['h'])), gvel=v)
        w.add_link(w.ground, j, b)
        s = shapes.Sphere(b, rad)
        w.register(s)
        con = constraints.SoftFingerContact((s, pl) if plan['swap'] else (pl, s), plan['mu'])
        w.register(con)
        w.register(WeightController())
        w.init()
    run = Run(plan, ctx, w)
    touch = False
    marks = [N // 4 + 5, N // 4 + 5 + (N * 3 // 8 - 10), N // 4 + 5 + 2 * (N * 3 // 8 - 10)]
    samples = [None, None, None]

    def gap():
        return float(n @ (j.gpos[:3, 3] - o)) - rad
    for k in range(N):
        was = touch
        dt = run.step(run.dt())
        d = gap()
        # the gap is closed to first order at each step
        V = np.abs(j.gvel).sum()
        tol = 1e-9 * (1 + np.abs(j.gpos[:3, 3]).max()) + 2 * (V * dt) ** 2
        ctx.check(d >= -tol, 'sinks', lambda: 'the sphere is %.3g inside the plane after %d steps' % (-d, run.k))
        touch = touch or d < 1e-9
        if was:
            ctx.check(abs(d) <= tol, 'leaves', lambda: 'the sphere which was on the plane is %.3g off it after %d steps' % (d, run.k))
        if k % 20 == 0 or k == N - 1:
            rigid(ctx, np.array(j.gpos), 'the position of a free joint', run.k)
            ctx.log(k, np.array(j.gpos))
        if run.k in marks:
            samples[marks.index(run.k)] = weigh()
    if touch:
        ctx.count('touching')
    vb = np.array(j.gvel)
    slip = vb[3:] + np.cross(vb[:3], j.gpos[:3, :3].T @ (-n * rad))
    if touch and np.linalg.norm(slip) > 1e-6:
        ctx.count('sliding')
    ctx.sig('roll', touch, plan['tilt'] > 0, plan['mu'], int(math.log10(N) * 2), plan['mode'])
    if all(samples):
        growth(ctx, samples, marks[1] - marks[0])


def rest(plan, ctx):
    """a body resting on points of contact within its friction cones stays there"""
    from arboris import core, joints, shapes, constraints
    from arboris.controllers import WeightController
    m, k, N = plan['mass'], plan['k'], plan['N']
    with sut(ctx, 'building the world'):
        w, pl, n, o, Rp = floor_world(plan, ctx)
        I = plan['I'] * m * plan['rad'] ** 2
        b = core.Body(mass=np.diag([I, I * 1.3, I * .8, m, m, m]))
        h = plan['com'] * (1 if k > 1 else 0)
        sr = plan['spheres'] if k > 1 else plan['rad']
        j = joints.FreeJoint(gpos=ref.mk(Rp, o + n * (h + sr)))
        w.add_link(w.ground, j, b)
        for i in range(k):
            a = plan['phase'] + 2 * math.pi * i / k
            p = np.array([plan['rad'] * math.cos(a), -h, plan['rad'] * math.sin(a)]) if k > 1 else np.zeros(3)
            f = core.SubFrame(b, ref.mk(None, p))
            s = shapes.Sphere(f, sr) if sr else shapes.Point(f)
            w.register(s)
            c = constraints.SoftFingerContact((s, pl) if plan['swap'][i] else (pl, s), plan['mu'])
            w.register(c)
        w.register(WeightController())
        w.init()
    run = Run(plan, ctx, w, gs=(1000, 1e-10))
    H0 = np.array(j.gpos)
    for i in range(N):
        run.step(run.dt())
        if i % 5 == 0 or i == N - 1:
            H = np.array(j.gpos)
            ctx.check(close(H, H0, 1e-7, 1.), 'creeps', lambda: 'a body at rest on %d contacts has moved after %d steps: ' % (k, run.k) + err(H, H0))
            ctx.log(i, np.round(H, 6))
    ctx.sig('rest', k, plan['tilt'] > 0, bool(sr), int(math.log10(N) * 2))
