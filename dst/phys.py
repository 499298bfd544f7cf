"""Shared workload: histories of simulated steps on a random world, with clock
irregularities, model events, aborted-and-retried steps; the world is advanced
either through the documented per-step calls ("manual") or through simulate()."""
import math
import numpy as np
from . import engine, ref, model
from .engine import sut, cb, Violation
from .model import L

UP = np.array([0., 1., 0.])
FAULT_KINDS = ['error', 'memory', 'interrupt', 'linalg', 'float', 'io']


# --- controllers -----------------------------------------------------------
class RefWeight:
    def __init__(self, g):
        self.g = g

    def force(self, sim, K, q, v, dt):
        return sim.tree.weight(K, self.g * UP), np.zeros((K.n, K.n))


class RefPD:
    def __init__(self, joints, kp, kd, qd, vd):
        self.joints, self.kp, self.kd, self.qd, self.vd = joints, kp, kd, qd, vd

    def idx(self, K):
        out = []
        for j in self.joints:
            out += list(range(K.dof[j].start, K.dof[j].stop))
        return out

    def force(self, sim, K, q, v, dt):
        ix = self.idx(K)
        qq = np.concatenate([q[j] for j in self.joints])
        F = np.zeros(K.n)
        Z = np.zeros((K.n, K.n))
        F[ix] = self.kp @ (self.qd - qq) + self.kd @ self.vd
        Z[np.ix_(ix, ix)] = -(self.kp * dt + self.kd)
        return F, Z


class RefUser:
    def __init__(self, spec):
        self.s = spec

    def force(self, sim, K, q, v, dt):
        s = self.s
        n = K.n
        F = s['amp'] * np.sin(np.arange(n) * 1.7 + s['phase'])
        Z = -s['z'] * np.eye(n)
        if n > 1 and s.get('skew'):
            A = np.sin(np.add.outer(np.arange(n) * 0.9, np.arange(n) * 2.3))
            Z = Z + s['skew'] * (A - A.T)
        return F, Z


def make_user_controller(spec, ctx, stepper):
    from arboris import core

    class UserController(core.Controller):
        def __init__(self):
            core.Controller.__init__(self, name=stepper.sim.nm(spec.get('name', spec['id'])))
            self.ctx = ctx
            self.n = None
            self.calls = 0
            self.dts = []

        @cb
        def init(self, world):
            self.n = world.ndof

        @cb
        def update(self, dt):
            self.calls += 1
            self.dts.append(dt)
            stepper.user_calls.append((spec['id'], dt))

            class _K:
                n = self.n
            return RefUser(spec).force(None, _K, None, None, dt)
    return UserController()


def add_controller(st, spec):
    from arboris import controllers as C
    sim = st.sim
    if spec['type'] == 'weight':
        nm = sim.nm(spec.get('name', spec['id']))
        c = C.WeightController(name=nm) if spec['g'] == -9.81 else C.WeightController(gravity=spec['g'], name=nm)
        rc = RefWeight(spec['g'])
    elif spec['type'] == 'pd':
        n = len(spec['q'])
        kp, kd = np.array(spec['kp']).reshape(n, n), np.array(spec['kd']).reshape(n, n)
        qd, vd = np.array(spec['q']), np.array(spec['v'])
        joints = [sim.joints[i] for i in spec['joints']]
        # only explicit arguments which differ from the documented defaults
        if spec.get('as_list') == 'iter':
            joints = iter(joints)
        elif spec.get('as_list') == 'tuple':
            joints = tuple(joints)
        elif spec.get('as_list') == 'named':
            joints = sim.core.NamedObjectsList(joints)
        kw = {}
        for nm, a in (('kp', kp), ('kd', kd), ('gpos_des', qd), ('gvel_des', vd)):
            if a.any() or not spec.get('defaults'):
                kw[nm] = model.hand(a)
                if spec.get('flat') and n == 1 and nm in ('kp', 'kd'):
                    kw[nm] = float(a.reshape(-1)[0])
                elif spec.get('flat'):
                    kw[nm] = a.reshape(-1).tolist()
        c = C.ProportionalDerivativeController(joints, name=sim.nm(spec.get('name', spec['id'])), **kw)
        rc = RefPD(list(spec['joints']), kp, kd, qd, vd)
    else:
        c = make_user_controller(spec, st.ctx, st)
        rc = RefUser(spec)
    sim.w.register(c)
    st.ctls[spec['id']] = c
    st.refctls[spec['id']] = rc
    return c


def given(frame, H):
    """move a moving subframe; the array is the caller's, who uses it again"""
    a = model.mat(H)
    frame.bpose = a
    a[...] = 99.


def gen_pd(r, m, cid, stiff=(1., 60.), sym=False):
    cand = [b['id'] for b in m['bodies'] if b['joint'] not in ('Free', 'Fixed')]
    if not cand:
        return None
    k = r.randint(1, min(3, len(cand)))
    js = r.sample(cand, k)
    kind = {b['id']: b['joint'] for b in m['bodies']}
    n = sum(ref.NDOF[kind[j]] for j in js)

    def gain(lo, hi):
        if r.random() < 0.5:
            return np.diag([r.uniform(lo, hi) for _ in range(n)])
        A = np.array([[r.gauss(0, 1) for _ in range(n)] for _ in range(n)])
        G = A @ A.T * (hi / (3. * n)) + lo * np.eye(n)
        if r.random() < 0.3 and not sym:
            G = G + 0.1 * hi * (A - A.T) / 3.
        return G
    zp, zd = r.random() < 0.08, r.random() < 0.15
    zq, zv = r.random() < 0.15, r.random() < 0.4
    far = 1. if r.random() < .85 else 9.
    # now and then everything is given as integers
    num = (lambda x: np.rint(x).astype(int).tolist()) if r.random() < .12 else L
    return dict(id=cid, type='pd', joints=js, kp=num(gain(*stiff) * (not zp)), kd=num(gain(0.1, 8.) * (not zd)),
                q=num(np.array([r.uniform(-far, far) * (not zq) for _ in range(n)])),
                v=num(np.array([r.uniform(-1, 1) * (not zv) for _ in range(n)])),
                as_list=r.choice(['no', 'no', 'no', 'no', 'no', 'named', 'named', 'iter', 'tuple']), defaults=r.random() < 0.6, flat=r.random() < 0.3)


def gen_controllers(r, m, n=3, weight=0.7, user=0.35, sym=False):
    out = []
    k = 0
    if r.random() < weight:
        out.append(dict(id='c%d' % k, type='weight', g=r.choice([-9.81, -9.81, -1.6, 3.2, -25.])))
        k += 1
    for _ in range(r.randint(0, n - 1)):
        if r.random() < user:
            out.append(dict(id='c%d' % k, type='user', amp=r.uniform(0, 5), phase=r.uniform(0, 6),
                            z=r.choice([0., r.uniform(0, 3)]), skew=0. if sym else r.choice([0., r.uniform(0, 1)])))
        else:
            c = gen_pd(r, m, 'c%d' % k, sym=sym)
            if c is None:
                continue
            out.append(c)
        k += 1
    r.shuffle(out)
    return out


# --- snapshots ---------------------------------------------------------------
class Snap:
    pass


class Stepper:
    """advances the world through plan['steps'].

    pre(snap)        after model, controllers, constraints of a step, before commit
    post(snap, end)  after the commit; end has q, v, gvel, t
    """
    TIGHT = (20000, 1e-12)
    final = False

    def singular_now(self):
        """the generalized mass matrix of the current state is singular (independent model)"""
        q, v = self.sim.state()
        if not all(np.all(np.isfinite(x)) for d in (q, v) for x in d.values()):
            return True
        return not cond(self.sim.tree.mass(self.sim.kin(q, v))) < 1e9

    def ill_now(self):
        return self.stop or self.final or self.singular_now()


    def __init__(self, plan, ctx, pre=None, post=None, before=None):
        self.plan, self.ctx = plan, ctx
        self.pre_cb, self.post_cb, self.before_cb = pre, post, before
        self.user_calls = []
        self.stop = False
        self.ctls, self.refctls, self.cons = {}, {}, {}
        self.con_spec = {}
        self.ctl_order = []
        with sut(ctx, 'building the world'):
            self.sim = model.Sim(plan['model'], named=plan.get('named', True))
            self.w = self.sim.w
            self.w.init()
        for c in plan.get('controllers', ()):
            with sut(ctx, 'registering a controller'):
                add_controller(self, c)
        self.extra_init = None
        self.meter = None
        self.handlers = {}
        self.events = {}
        for e in plan.get('events', ()):
            self.events.setdefault(e['at'], []).append(e)
        self.faults = {}
        for f in plan.get('faults', ()):
            self.faults.setdefault(f['at'], []).append(f)

    def finish_setup(self):
        with sut(self.ctx, 'World.init'):
            self.w.init()
            self.w.update_dynamic()

    # ---------------------------------------------------------------------
    def take(self, dt):
        w, sim = self.w, self.sim
        s = Snap()
        s.dt = dt
        s.t = float(w.current_time)
        s.q, s.v = sim.state()
        s.gvel = w.gvel.copy()
        s.M, s.B, s.N = w.mass.copy(), w.viscosity.copy(), w.nleffects.copy()
        self.ctx.check(isinstance(w.gforce, np.ndarray), 'gforce', 'the generalized force of the world is %r' % (w.gforce,))
        s.F = w.gforce.copy()
        s.cons = {}
        for cid, c in self.cons.items():
            d = Snap()
            d.enabled = bool(c.is_enabled())
            d.gforce = np.array(c.gforce, copy=True)
            d.jac = np.array(c.jacobian, copy=True)
            s.cons[cid] = d
        s.K = sim.kin(s.q, s.v)
        s.poses = {}
        return s

    def end_state(self):
        e = Snap()
        e.q, e.v = self.sim.state()
        e.gvel = self.w.gvel.copy()
        e.t = float(self.w.current_time)
        return e

    def ref_forces(self, s):
        F = np.zeros(s.K.n)
        Z = np.zeros((s.K.n, s.K.n))
        for cid, rc in self.refctls.items():
            f, z = rc.force(self.sim, s.K, s.q, s.v, s.dt)
            F = F + f
            Z = Z + z
        return F, Z

    # ---------------------------------------------------------------------
    def on_pre(self, s):
        ctx = self.ctx
        if not self.stop:
            K = s.K
            if not np.all(np.isfinite(s.gvel)):
                ctx.fail('not-finite', 'velocity is not finite at t=%g' % s.t)
            vmax = max([np.abs(x).max(initial=0) for x in s.v.values()] + [0])
            if vmax > 1e3 or cond(self.sim.tree.mass(K)) > 1e7:
                self.stop = True        # no longer a meaningful model
                ctx.count('stopped-ill-posed')
        if self.stop:
            return
        ctx.steps += 1
        ctx.log('pre', s.t, s.dt, s.gvel, s.F)
        if self.pre_cb:
            self.pre_cb(s)

    def on_post(self, s, e):
        if self.stop:
            return
        self.ctx.sim_time += s.dt
        self.ctx.log('post', e.t, e.gvel)
        if self.post_cb:
            self.post_cb(s, e)

    def step_calls(self, dt):
        w = self.w
        w.update_dynamic()
        w.update_controllers(dt)
        if self.plan.get('gs') == 'tight':
            w.update_constraints(dt, *self.TIGHT)
        else:
            w.update_constraints(dt)

    def aborted_attempt(self, dt, f):
        """run the step with a fault injected before the commit, return fired"""
        ctx = self.ctx
        self.user_fault = dict(f) if 'con' in f else None
        nf = len(ctx.injected)
        with engine.inject_at_line(ctx, f['n'], f['kind']):
            try:
                with sut(ctx, 'step', skip=self.ill_now):
                    self.step_calls(dt)
            except BaseException as e:
                if not any(e is i for i in ctx.injected):
                    raise
                ctx.count('aborted-step')
        self.user_fault = None
        self.user_calls = []
        self.reset_spies()
        return len(ctx.injected) > nf

    def reset_spies(self):
        pass

    def run_manual(self):
        ctx = self.ctx
        for k, dt in enumerate(self.plan['steps']):
            if self.stop:
                break
            self.k = k
            self.do_events(k)
            for f in self.faults.get(k, ()):
                self.aborted_attempt(dt, f)
            if self.before_cb:
                self.before_cb(k, dt)
            s = e = None
            with sut(ctx, 'step %d' % k, skip=self.ill_now):
                self.step_calls(dt)
                s = self.take(dt)
            if s is None:
                break
            self.on_pre(s)
            with sut(ctx, 'integrate step %d' % k, skip=self.ill_now):
                self.w.integrate(dt)
                e = self.end_state()
            if e is None:
                break
            self.on_post(s, e)

    def run_simulate(self):
        """advance through simulate(); one call per group of steps without events"""
        from arboris import core
        ctx = self.ctx
        st = self

        class Watch(core.Observer):
            def __init__(self):
                core.Observer.__init__(self, name='watch')
                self.ctx = ctx
                self.last = None
                self.done = False

            @cb
            def init(self, world, timeline):
                self.last = None

            @cb
            def update(self, dt):
                if self.last is not None:
                    st.on_post(self.last, st.end_state())
                s = st.take(dt)
                self.last = s
                st.on_pre(s)

            @cb
            def finish(self):
                pass

        class Gate(core.Observer):
            """last observer: tells the injector the commit is next"""

            def __init__(self):
                core.Observer.__init__(self, name='gate')
                self.open = True

            def init(self, world, timeline):
                self.open = True

            def update(self, dt):
                self.open = False

            def finish(self):
                pass
        steps = self.plan['steps']
        k = 0
        while k < len(steps) and not self.stop:
            self.k = k
            self.do_events(k)
            n = 1
            while k + n < len(steps) and (k + n) not in self.events and (k + n) not in self.faults and n < 7:
                n += 1
            if self.before_cb:
                self.before_cb(k, steps[k])
            t = float(self.w.current_time)
            for f in self.faults.get(k, ()):
                gate = Gate()
                self.user_fault = dict(f) if 'con' in f else None
                nf = len(ctx.injected)
                with engine.inject_at_line(ctx, f['n'], f['kind'], only=lambda: gate.open):
                    try:
                        with sut(ctx, 'simulate', skip=self.ill_now):
                            core.simulate(self.w, [t, t + steps[k]], [gate])
                    except BaseException as e:
                        if not any(e is i for i in ctx.injected):
                            raise
                        ctx.count('aborted-step')
                self.user_calls = []
                self.user_fault = None
                self.reset_spies()
                if len(ctx.injected) == nf:
                    # the step was completed: account for it and go on
                    ctx.count('fault-not-reached')
                    k += 1
                    n = 0
                    break
                ctx.check(float(self.w.current_time) == t, 'clock-moved-by-aborted-step',
                          'clock %r after an aborted step at %r' % (float(self.w.current_time), t))
            if n == 0:
                continue
            ts = [t]
            for d in steps[k:k + n]:
                ts.append(ts[-1] + d)
            watch = Watch()
            with sut(ctx, 'simulate', skip=self.ill_now):
                core.simulate(self.w, ts, [watch])
            if watch.last is not None:
                self.on_post(watch.last, self.end_state())
            k += n

    def run(self):
        self.finish_setup()
        if self.plan.get('mode') == 'simulate':
            self.run_simulate()
        else:
            self.run_manual()

    # --- events -----------------------------------------------------------
    def do_events(self, k):
        for e in self.events.get(k, ()):
            self.ctx.count('event:' + e['kind'])
            self.ctx.log('event', k, e['kind'])
            self.ctx.note('before step %d: %s' % (k, e['kind']))
            h = self.handlers.get(e['kind']) or getattr(self, 'ev_' + e['kind'].replace('-', '_'))
            with sut(self.ctx, 'event ' + e['kind']):
                h(e)

    def ev_set_state(self, e):
        q = {i: np.array(x) for i, x in e['q'].items() if i in self.sim.joints}
        v = {i: np.array(x) for i, x in e['v'].items() if i in self.sim.joints}
        self.sim.set_state(q, v, not e.get('noinit'), e.get('whole', False))

    def ev_rebind(self, e):
        """the same position, in an array of the user"""
        for i, j in self.sim.joints.items():
            if self.sim.tree.links[i].kind != 'Fixed':
                j.gpos = np.array(j.gpos)

    def ev_move_anchor(self, e):
        f = self.sim.anchors.get((e['body'], e['end']))
        if f is not None:
            given(f, e['H'])
            setattr(self.sim.tree.links[e['body']], e['end'], model.mat(e['H']))

    def ev_init(self, e):
        self.w.init()

    def ev_update_dynamic(self, e):
        self.w.update_dynamic()

    def ev_update_geometric(self, e):
        self.w.update_geometric()

    def ev_visc(self, e):
        if e['body'] in self.sim.bodies:
            if e.get('inplace'):
                self.sim.bodies[e['body']].viscosity[:] = model.mat(e['visc'])
            else:
                self.sim.bodies[e['body']].viscosity = model.mat(e['visc'])
            self.sim.tree.links[e['body']].visc = model.mat(e['visc'])

    def ev_mass(self, e):
        if e['body'] in self.sim.bodies:
            if e.get('inplace'):
                self.sim.bodies[e['body']].mass[:] = model.mat(e['mass'])
            else:
                self.sim.bodies[e['body']].mass = model.mat(e['mass'])
            self.sim.tree.links[e['body']].mass = model.mat(e['mass'])
            if not e.get('noinit'):
                self.w.init()

    def ev_move_frame(self, e):
        if e['frame'] in self.sim.frames:
            given(self.sim.frames[e['frame']], e['H'])
            self.sim.fH[e['frame']] = model.mat(e['H'])

    def ev_snap(self, e):
        """the user places a frame at a given pose relative to another frame of the world"""
        f, K = e['frame'], self.sim.kin()
        H = ref.hinv(K.H[self.sim.fbody[f]]) @ self.sim.frame_pose_ref(K, e['on']) @ model.mat(e['H'])
        H[3] = [0, 0, 0, 1]
        given(self.sim.frames[f], H)
        self.sim.fH[f] = np.array(H)

    def ev_add_body(self, e):
        if e['body']['parent'] not in self.sim.bodies or e['body']['id'] in self.sim.bodies:
            return
        self.sim.add_body(e['body'])
        self.w.init()

    def ev_replace_joint(self, e):
        i = e['body']
        if i not in self.sim.joints:
            return
        old = self.sim.joints[i]
        b = dict(id=i, joint=e['joint'], gpos=e['gpos'], gvel=e['gvel'])
        new = self.sim.make_joint(b)
        self.w.replace_joint(old, new)
        self.sim.joints[i] = new
        self.sim.tree.links[i].kind = e['joint']

    def ev_retarget(self, e):
        c, rc = self.ctls.get(e['ctl']), self.refctls.get(e['ctl'])
        if c is None or not isinstance(rc, RefPD):
            return
        for name in ('gpos_des', 'gvel_des', 'kp', 'kd'):
            if e.get(name) is None:
                continue
            a = np.array(e[name])
            if e.get('inplace'):
                getattr(c, name)[...] = a
            else:
                setattr(c, name, a.copy())
            setattr(rc, {'gpos_des': 'qd', 'gvel_des': 'vd', 'kp': 'kp', 'kd': 'kd'}[name], a)

    def ev_reregister(self, e):
        c = self.ctls.get(e['ctl'])
        if c is not None:
            self.w.register(c)
            self.w.init()

    def ev_add_controller(self, e):
        if e['ctl']['id'] in self.ctls:
            return
        if any(j not in self.sim.joints or self.sim.tree.links[j].kind in ('Free', 'Fixed')
               for j in e['ctl'].get('joints', ())):
            return
        add_controller(self, e['ctl'])
        self.w.init()


# --- generation of steps, events, faults -----------------------------------------
def gen_steps(r, n):
    base = r.choice([1e-3, 3e-3, 1e-2])
    if r.random() < 0.3:
        return [base] * n
    return [model.rnd_dt(r, base) for _ in range(n)]


def gen_faults(r, nsteps, rate=0.2, maxline=4000):
    out = []
    for k in range(nsteps):
        while r.random() < rate and len(out) < 12:
            out.append(dict(at=k, n=int(math.exp(r.uniform(0, math.log(maxline)))), kind=r.choice(FAULT_KINDS)))
    return out


def gen_events(r, m, ctls, nsteps, kinds, rate=0.3):
    out = []
    jk = {b['id']: b['joint'] for b in m['bodies']}
    tree = model.ref_tree(m)
    nb = 0
    pd = [c for c in ctls if c['type'] == 'pd']
    used = set(j for c in pd for j in c['joints'])
    for k in range(nsteps):
        if r.random() > rate:
            continue
        kind = r.choice(kinds)
        e = dict(at=k, kind=kind)
        if kind == 'set_state':
            ids = [i for i in jk if jk[i] != 'Fixed' and r.random() < 0.7]
            e['q'] = {i: rnd_state_q(r, jk[i]) for i in ids}
            e['v'] = {i: model.rnd_v(r, jk[i]) for i in ids}
            e['noinit'] = r.random() < .25
            e['whole'] = r.random() < .3
        elif kind == 'visc':
            e['body'] = r.choice(list(jk))
            e['visc'] = L(model.rnd_visc(r))
            e['inplace'] = r.random() < .3
        elif kind == 'mass':
            light = [b['id'] for b in m['bodies'] if not tree.links[b['id']].mass.any()]
            cand = light if light and r.random() < .4 else [b['id'] for b in m['bodies'] if b['id'] not in light]
            if not cand:
                continue
            e['body'] = r.choice(cand)
            e['mass'] = L(model.rnd_mass6(r))
            e['inplace'], e['noinit'] = r.random() < .3, r.random() < .4 and e['body'] not in light
            tree.links[e['body']].mass = model.mat(e['mass'])
        elif kind == 'move_frame':
            cand = [f['id'] for f in m['frames'] if f['moving']]
            if not cand:
                continue
            e['frame'] = r.choice(cand)
            e['H'] = L(model.rnd_H(r))
        elif kind == 'move_anchor':
            cand = [(b['id'], k) for b in m['bodies'] for k in ('H0', 'H1') if b.get('mv' + k)]
            if not cand:
                continue
            e['body'], e['end'] = r.choice(cand)
            e['H'] = L(model.rnd_H(r))
            old = getattr(tree.links[e['body']], e['end'])
            setattr(tree.links[e['body']], e['end'], model.mat(e['H']))
            if not tree_ok(r, tree):
                setattr(tree.links[e['body']], e['end'], old)
                continue
        elif kind == 'add_body':
            kd = r.choice(model.JOINTS_ALL)
            bid = 'n%d' % nb
            nb += 1
            e['body'] = dict(id=bid, parent=r.choice(['g'] + list(jk)), joint=kd,
                             gpos=[] if kd == 'Fixed' else model.rnd_q(r, kd), gvel=model.rnd_v(r, kd),
                             H0=None if r.random() < .5 else L(model.rnd_H(r)),
                             H1=None if r.random() < .5 else L(model.rnd_H(r)),
                             mass=L(model.rnd_mass6(r)), visc=None)
            tree.add(model.ref_link(e['body']))
            if not tree_ok(r, tree):
                tree.children[e['body']['parent']].remove(bid)
                del tree.links[bid]
                continue
            jk[bid] = kd
        elif kind == 'replace_joint':
            heavy = [b['id'] for b in m['bodies'] if b['mass'] is not None]
            cand = [i for i in jk if i not in used and i in heavy]
            if not cand:
                continue
            i = r.choice(cand)
            kd = r.choice(model.JOINTS_ALL)
            old, tree.links[i].kind = tree.links[i].kind, kd
            if not tree_ok(r, tree):
                tree.links[i].kind = old
                continue
            e.update(body=i, joint=kd, gpos=[] if kd == 'Fixed' else model.rnd_q(r, kd), gvel=model.rnd_v(r, kd))
            jk[i] = kd
        elif kind == 'retarget':
            if not pd:
                continue
            c = r.choice(pd)
            n = len(c['q'])
            e['ctl'] = c['id']
            e['inplace'] = r.random() < 0.4
            if r.random() < 0.8:
                far = 1. if r.random() < .85 else 9.
                e['gpos_des'] = [r.uniform(-far, far) for _ in range(n)]
            if r.random() < 0.6:
                e['gvel_des'] = [r.uniform(-1, 1) for _ in range(n)]
            if r.random() < 0.3:
                e['kp'] = L(np.diag([r.uniform(1, 50) for _ in range(n)]))
            if r.random() < 0.3:
                e['kd'] = L(np.diag([r.uniform(.1, 5) for _ in range(n)]))
        elif kind == 'reregister':
            if not ctls:
                continue
            e['ctl'] = r.choice(ctls)['id']
        elif kind == 'add_controller':
            e['ctl'] = gen_pd(r, dict(bodies=[dict(id=i, joint=jk[i]) for i in jk]), 'x%d' % k)
            if e['ctl'] is None:
                continue
            used.update(e['ctl']['joints'])
        out.append(e)
    return out


def tree_ok(r, tree, lim=3e5):
    """the mass matrix stays well conditioned at random configurations"""
    for _ in range(3):
        q = {i: np.array(model.rnd_q(r, l.kind), dtype=float) if l.kind != 'Fixed' else np.zeros(0) for i, l in tree.links.items()}
        v = {i: np.zeros(ref.NDOF[l.kind]) for i, l in tree.links.items()}
        K = tree.kin(q, v, False)
        if cond(tree.mass(K)) > lim:
            return False
    return True


def rnd_state_q(r, kind):
    return model.rnd_q(r, kind)


# --- numerics -----------------------------------------------------------------------
def close(a, b, tol, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a)):
        return False
    s = 1. + np.abs(b).max() if scale is None else scale
    return bool(np.abs(a - b).max() <= tol * s)


def err(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    if a.size == 0:
        return '0'
    i = np.unravel_index(np.argmax(np.nan_to_num(np.abs(a - b), nan=np.inf)), a.shape) if a.ndim else ()
    return 'off by %.3g at %s (%.9g instead of %.9g)' % (abs(a[i] - b[i]), tuple(int(x) for x in i), a[i], b[i])


def cond(A):
    if A.size == 0:
        return 1.
    if not np.all(np.isfinite(A)):
        return np.inf
    return np.linalg.cond(A)


def well_posed(s, limit=1e9):
    """the step's reference system is numerically meaningful"""
    K = s.K
    return np.all(np.isfinite(s.gvel)) and np.abs(s.gvel).max(initial=0) < 1e4
