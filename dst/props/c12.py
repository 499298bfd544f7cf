"""C12: recorders return exactly the values that held at each step."""
import math
import numpy as np
from .. import phys, ref, model, cons, engine
from ..engine import sut, cb
from ..model import L

ID = 'C12'
LEVEL = 'exploration'
TECHNIQUE = ('random histories of runs (simulate or stepped by hand, observers reused with longer and shorter timelines, runs aborted by injected faults, state and '
             'mass edits between runs); every entry of every recorder is compared to a shadow copy taken at its step and to an independent model of the quantity')
NOTE = ('Sampled histories. Joint states, poses, twists and forces are compared bit for bit with what the world showed at that step; poses, twists, distances, centres of '
        'mass, their Jacobians and energies within rounding of an independent model.')
RUNS_QUICK = 6000
RUNS_THOROUGH = 40000
RULE = ('one run = one world with up to 8 recorders and a history of up to 4 runs of them; non-trivial when a recorder was reused after at least two steps were recorded; '
        'distinct by event-log digest')
STATES = 'tuples (kinds of recorders, lengths of the runs, faults fired, edits between the runs)'
REAL = ['arboris.observers', 'arboris.core', 'arboris.collisions', 'arboris.massmatrix', 'arboris.constraints', 'arboris.controllers']
STUB = ['a scripted observer which takes the shadow copies', 'user controllers (scripted)', 'pylab (plots are not drawn)']
ASSUMPTIONS = ['body masses and bodies are not edited while a run is in progress', 'a centre of mass is asked for bodies whose total mass is not zero',
               'energies, centres of mass: |velocities| < 1e3 and non-singular generalized mass']
PROBES = ['obs:gpos', 'obs:gvel', 'obs:pose', 'obs:twist', 'obs:force', 'obs:dist', 'obs:compos', 'obs:com', 'obs:energy', 'massless', 'aborted', 'reuse-after-abort',
          'reuse-longer', 'reuse-shorter', 'manual', 'other-world', 'mass-edit', 'disabled-force', 'nonzero-force', 'no-step']
RUN_TIMEOUT = 120
KINDS = ['gpos', 'gvel', 'pose', 'pose', 'twist', 'twist', 'force', 'force', 'dist', 'compos', 'com', 'com', 'energy', 'energy']


def gen_shapes(r, m):
    """pairs of shapes a distance solver exists for"""
    pairs = []
    ids = [b['id'] for b in m['bodies']]
    for k in range(r.choice([0, 1, 1, 2])):
        out = []
        for t in r.choice([('Sphere', 'Sphere'), ('Sphere', 'Point'), ('Sphere', 'Plane'), ('Sphere', 'Box'), ('Point', 'Plane')]):
            n = 'd%d%d' % (k, len(out))
            body = r.choice(ids + ['g']) if not out else r.choice([i for i in ids + ['g'] if i != out[0]])
            f = body
            if r.random() < .7:
                f = n + 'f'
                m['frames'].append(dict(id=f, body=body, H=L(model.rnd_H(r)), moving=r.random() < .5))
            s = dict(id=n, frame=f, type=t)
            if t == 'Sphere':
                s['radius'] = r.uniform(.02, .3)
            elif t == 'Plane':
                s['coeffs'] = L(list(model.rnd_axis(r)) + [r.uniform(-.5, .5)])
            elif t == 'Box':
                s['he'] = [r.uniform(.05, .4) for _ in range(3)]
            m['shapes'].append(s)
            out.append(body)
        p = ['d%d0' % k, 'd%d1' % k]
        r.shuffle(p)
        pairs.append(p)
    return pairs


def gen_run(r, nobs, i):
    n = r.choice([0, 1, 2, 3, 3, 5, 8]) if r.random() < .985 else r.choice([35, 70, 150, 300])
    base = r.choice([1e-3, 2. ** -9, 5e-3]) if n < 20 else 5e-4
    t = [r.choice([0., 0., 1., -2.])]
    for _ in range(n):
        t.append(t[-1] + base * r.uniform(.3, 2.))
    order = r.sample(range(nobs), nobs)
    if r.random() < .25:
        order = order[:r.randint(1, nobs)]
    f = None
    if r.random() < .35:
        f = dict(kind=r.choice(['line', 'line', 'obs', 'ctl', 'init', 'finish']), at=r.randint(0, 6), pos=r.randint(0, nobs), n=int(math.exp(r.uniform(0, math.log(4000)))),
                 exc=r.choice(phys.FAULT_KINDS))
    return dict(times=t, order=order, manual=r.random() < .3, fault=f, edits=[], other=i > 0 and r.random() < .12)


def generate(r, tier):
    kinds = r.choice([[], ['limits'], ['contact'], ['limits', 'contact', 'ball', 'user'], ['ball'], ['user']])
    if kinds:
        m, cs = cons.gen_scene(r, kinds, 1, 2, bmax=4, massless=.3)
    else:
        m, cs = model.gen_model(r, nmin=1, nmax=5, visc=.3, frames=2, massless=.3), []
        m['shapes'] = []
    pairs = gen_shapes(r, m)
    ids = [b['id'] for b in m['bodies']]
    heavy = [b['id'] for b in m['bodies'] if b['mass'] is not None]
    obs = []
    for _ in range(r.choice([1, 2, 3, 4, 6, 8])):
        k = r.choice(KINDS)
        o = dict(kind=k)
        if k in ('gpos', 'gvel'):
            o['joint'] = r.choice(ids)
        elif k in ('pose', 'twist'):
            o['frame'] = r.choice(ids + ['g'] + [f['id'] for f in m['frames']] * 2)
        elif k == 'force':
            if not cs:
                continue
            o['con'] = r.choice(cs)['id']
        elif k == 'dist':
            if not pairs:
                continue
            o['pair'] = r.choice(pairs)
        elif k in ('com', 'compos'):
            if not heavy:
                continue
            b = r.sample(ids, r.randint(1, len(ids)))
            if not set(b) & set(heavy):
                b.insert(r.randint(0, len(b)), r.choice(heavy))
            if r.random() < .15:
                b.append('g')
            o['bodies'] = b
            o['typ'] = r.choice(['list', 'tuple', 'named'])
            if k == 'com':
                o['jac'] = r.random() < .8
        o['id'] = 'o%d' % len(obs)
        obs.append(o)
    if not obs:
        obs = [dict(kind='energy', id='o0')]
    runs = [gen_run(r, len(obs), i) for i in range(r.choice([1, 2, 2, 3, 4]))]
    for k, run in enumerate(runs):
        if k and r.random() < .3:
            run['edits'].append(dict(kind='state', q={b['id']: model.rnd_q(r, b['joint']) for b in m['bodies']}, v={b['id']: model.rnd_v(r, b['joint']) for b in m['bodies']}))
        if k and r.random() < .3 and heavy:
            run['edits'].append(dict(kind='mass', body=r.choice(heavy), mass=L(model.rnd_mass6(r)), inplace=r.random() < .5))
        if k and cs and r.random() < .3:
            run['edits'].append(dict(kind=r.choice(['enable', 'disable']), con=r.choice(cs)['id']))
    return dict(model=m, constraints=cs, controllers=phys.gen_controllers(r, m, sym=True, user=.2), obs=obs, runs=runs,
                other=model.gen_model(r, nmin=1, nmax=2, massless=.3))


def summary(p):
    return dict(joints=[b['joint'] for b in p['model']['bodies']], observers=[o['kind'] for o in p['obs']],
                runs=[(len(x['times']) - 1, 'manual' if x['manual'] else 'simulate', x['fault'] and x['fault']['kind']) for x in p['runs']])


class Bench:
    def __init__(self, plan, ctx):
        from arboris import core, observers as O
        self.plan, self.ctx, self.core, self.O = plan, ctx, core, O
        self.st = cons.ConStepper(dict(model=plan['model'], controllers=plan['controllers'], constraints=plan['constraints'], steps=[1e-3]), ctx)
        self.sim, self.w = self.st.sim, self.st.w
        self.other = None
        self.fired = False
        self.rfault = None
        self.kept = []              # (recorder id, list kept by the user, copies)
        bench = self

        class Probe(core.Controller):
            def __init__(self):
                core.Controller.__init__(self, name='probe')
                self.ctx = ctx

            @cb
            def init(self, world):
                self.n = world.ndof

            @cb
            def update(self, dt):
                bench.maybe('ctl', bench.k)
                return np.zeros(self.n), np.zeros((self.n, self.n))
        self.w.register(Probe())
        self.w.init()

        class Shadow(core.Observer):
            """last: takes the copies of the step"""

            def __init__(self):
                core.Observer.__init__(self, name='shadow')
                self.ctx = ctx

            @cb
            def init(self, world, timeline):
                bench.on_init(world)

            @cb
            def update(self, dt):
                bench.on_update(dt)

            @cb
            def finish(self):
                bench.done = True
        self.shadow = Shadow()

        class Saboteur(core.Observer):
            """raises; anywhere among the recorders"""

            def __init__(self):
                core.Observer.__init__(self, name='saboteur')
                self.ctx = ctx

            @cb
            def init(self, world, timeline):
                bench.maybe('init')

            @cb
            def update(self, dt):
                bench.maybe('obs', bench.k)

            @cb
            def finish(self):
                bench.maybe('finish')
        self.saboteur = Saboteur()
        self.obs = {o['id']: self.make(o) for o in plan['obs']}
        self.spec = {o['id']: o for o in plan['obs']}

    def make(self, o):
        O, sim, k = self.O, self.sim, o['kind']
        with sut(self.ctx, 'making a recorder of ' + k):
            if k == 'gpos':
                return O.RecordJointGpos(sim.joints[o['joint']])
            if k == 'gvel':
                return O.RecordJointGvel(sim.joints[o['joint']])
            if k == 'pose':
                return O.RecordFramePose(sim.frame(o['frame']))
            if k == 'twist':
                return O.RecordFrameTwist(sim.frame(o['frame']))
            if k == 'force':
                return O.RecordConstForce(self.st.cons[o['con']])
            if k == 'dist':
                return O.RecordDistance(*[sim.shapes[s] for s in o['pair']])
            if k == 'energy':
                return O.EnergyMonitor()
            b = [sim.bodies[i] for i in o['bodies']]
            if o['typ'] == 'tuple':
                b = tuple(b)
            elif o['typ'] == 'named':
                b = self.core.NamedObjectsList(b)
            return O.RecordCoMPosition(b) if k == 'compos' else O.CoMObserver(b, compute_Jacobians=o['jac'])

    def maybe(self, kind, at=None):
        f = self.rfault
        if f is None or self.fired or f['kind'] != kind or (at is not None and at != f['at'] % max(self.n, 1)):
            return
        self.fired = True
        e = engine.make_exc(f['exc'])
        self.ctx.injected.append(e)
        self.ctx.count('fault:%s-%s' % (kind, f['exc']))
        raise e

    # -- one step, seen by the shadow ------------------------------------------------
    def on_init(self, world):
        self.k = 0
        self.rows = []              # per step: dict recorder id -> expected entry
        self.judged = []

    def on_update(self, dt):
        w, sim, ctx = self.cur, self.cursim, self.ctx
        q, v = sim.state()
        K = sim.kin(q, v)
        vmax = max([np.abs(x).max(initial=0) for x in v.values()] + [0])
        good = vmax < 1e3 and phys.cond(sim.tree.mass(K)) < 1e9
        ck = ctx.check
        row = {}
        for i in self.ids:
            o = self.spec[i]
            kd = o['kind']
            if kd == 'gpos':
                row[i] = q[o['joint']]
                self.bits(self.last(i), sim.joints[o['joint']].gpos, i)
            elif kd == 'gvel':
                row[i] = v[o['joint']]
                self.bits(self.last(i), sim.joints[o['joint']].gvel, i)
            elif kd == 'pose':
                row[i] = np.array(sim.frame(o['frame']).pose, copy=True)
                if good:
                    self.near(row[i], sim.frame_pose_ref(K, o['frame']), 'pose')
            elif kd == 'twist':
                row[i] = np.array(sim.frame(o['frame']).twist, copy=True)
                if good:
                    f = o['frame']
                    T = ref.Ad(ref.hinv(sim.fH[f])) @ K.T[sim.fbody[f]] if f in sim.frames else K.T[f]
                    self.near(row[i], T, 'twist')
            elif kd == 'force':
                row[i] = self.force(o['con'], K, i, good)
            elif kd == 'dist':
                row[i] = np.array(self.last(i), dtype=float, copy=True)
                a, b = [sim.shape_spec[s] for s in o['pair']]
                if good:
                    d = cons.ref_pair(a, sim.frame_pose_ref(K, a['frame']), b, sim.frame_pose_ref(K, b['frame']))[0]
                    ck(row[i].ndim == 0, 'distance', 'recorded distance %r' % row[i])
                    self.near(row[i], d, 'distance')
            elif kd in ('com', 'compos'):
                ob = self.obs[i]
                c, J, dJ = self.com(K, o['bodies'])
                p = self.last(i) if kd == 'compos' else ob.get_CoMPosition()
                row[i] = np.array(p, copy=True)
                if good:
                    self.near(p, c, 'centre of mass')
                    if kd == 'com' and o['jac']:
                        self.near(ob.get_CoMJacobian(), J, 'CoM Jacobian', 1e-8)
                        self.near(ob.get_CoMdJacobian(), dJ, 'CoM Jacobian derivative', 1e-7)
            elif kd == 'energy':
                ob = self.obs[i]
                ck(all(len(x) > self.k for x in self.entries(i)), 'missing', 'the energies of step %d were not recorded' % self.k)
                row[i] = np.array([x[-1] for x in (ob.time, ob.kinetic_energy, ob.potential_energy, ob.mechanichal_energy)], dtype=float)
                ck(row[i][0] == float(w.current_time), 'energy-time', 'the energy of the step at %r is dated %r' % (w.current_time, row[i][0]))
                if good:
                    up = np.array([0., 1., 0.])
                    Ec, Ep = sim.tree.kinetic(K), sim.tree.potential(K, up)
                    sc = sum(9.81 * sim.tree.links[b].mass[3, 3] * np.abs(K.H[b][:3, 3]).max() for b in K.order) + Ec + 1.
                    for j, (x, nm) in enumerate(((Ec, 'kinetic'), (Ep, 'potential'), (Ec + Ep, 'mechanical'))):
                        ck(abs(row[i][j + 1] - x) <= 1e-9 * sc, 'energy-' + nm, '%s energy recorded as %r in step %d: %r' % (nm, row[i][j + 1], self.k, x))
        self.rows.append(row)
        self.judged.append(good)
        ctx.log('step', float(w.current_time), [row[i] for i in self.ids])
        self.check_rows()
        self.k += 1
        ctx.steps += 1
        ctx.sim_time += dt

    def bits(self, a, b, i, what=''):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        self.ctx.check(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), self.spec[i]['kind'], lambda: '%s recorded %s in step %d%s: it was %s' % (
            self.spec[i]['kind'], L(a), self.k, what, L(b)))

    def near(self, a, b, what, tol=1e-9):
        self.ctx.check(phys.close(a, b, tol), what.replace(' ', '-'), lambda: '%s in step %d: %s' % (what, self.k, phys.err(a, b)))

    def last(self, i):
        rec = self.obs[i].get_record()
        self.ctx.check(rec is not None and len(rec) > self.k and rec[self.k] is not None, 'missing', 'recorder of %s holds no entry for step %d after it' % (self.spec[i]['kind'], self.k))
        return rec[self.k]

    def com(self, K, bodies):
        tree = self.cursim.tree
        m = 0.
        c, J, dJ = np.zeros(3), np.zeros((3, K.n)), np.zeros((3, K.n))
        for b in bodies:
            if b == 'g' or tree.links[b].mass[5, 5] == 0.:
                continue
            mb = tree.links[b].mass[5, 5]
            R, l = K.H[b][:3, :3], ref.hat(tree.com_local(b))
            v = K.J[b][3:] - l @ K.J[b][:3]
            m += mb
            c = c + mb * tree.com(K, b)
            J = J + mb * R @ v
            dJ = dJ + mb * R @ (ref.hat(K.T[b][:3]) @ v + K.dJ[b][3:] - l @ K.dJ[b][:3])
        return c / m, J / m, dJ / m

    def force(self, cid, K, i, good):
        c, st = self.st.cons[cid], self.st
        f = np.array(self.last(i), dtype=float, copy=True)
        self.ctx.check(f.shape == (c.ndol,), 'force-shape', 'recorded force %s of constraint %s' % (f, cid))
        if not c.is_enabled():
            self.ctx.count('disabled-force')
            self.ctx.check(not f.any(), 'force-disabled', 'a force %s is recorded for a disabled constraint' % f)
        if f.any():
            self.ctx.count('nonzero-force')
        if good and np.all(np.isfinite(f)) and np.abs(f).max() < 1e8:
            st.R = {x: np.array(fr[0].pose[:3, :3], copy=True) for x, fr in st.cframes.items() if fr}
            g = st.rows(K, [cid]).T @ f
            if c.is_enabled() and (not hasattr(c, 'actives') or c.actives and c.actives[-1]):
                self.ctx.check(phys.close(c.gforce, g, 1e-7), 'force', lambda: 'recorded force of %s does not give its generalized force: %s' % (cid, phys.err(c.gforce, g)))
        return f

    def check_rows(self):
        """all the entries so far are what they were"""
        for i in self.ids:
            kd = self.spec[i]['kind']
            if kd == 'com':
                continue
            for k, row in enumerate(self.rows):
                self.same_entry(i, kd, k, self.entries(i), row[i])

    def entries(self, i):
        ob = self.obs[i]
        if self.spec[i]['kind'] == 'energy':
            return (ob.time, ob.kinetic_energy, ob.potential_energy, ob.mechanichal_energy)
        return ob.get_record()

    def same_entry(self, i, kd, k, rec, want, note=''):
        if kd == 'energy':
            self.ctx.check(all(len(x) > k for x in rec), 'missing', 'the energy of step %d is gone%s' % (k, note))
            got = np.array([x[k] for x in rec], dtype=float)
        else:
            self.ctx.check(len(rec) > k and rec[k] is not None, 'missing', 'recorder of %s: the entry of step %d is gone%s' % (kd, k, note))
            got = np.asarray(rec[k], dtype=float)
        self.ctx.check(got.shape == np.shape(want) and np.array_equal(got, want, equal_nan=True), 'altered', lambda: 'recorder of %s: the entry of step %d reads %s%s, it was %s' % (
            kd, k, L(got), note, L(want)))

    # -- runs ---------------------------------------------------------------------
    def edit(self, e):
        w, sim = self.w, self.sim
        if e['kind'] == 'state':
            with sut(self.ctx, 'setting the state'):
                sim.set_state(e['q'], e['v'])
        elif e['kind'] == 'mass':
            M = model.mat(e['mass'])
            q, v = sim.state()
            b = sim.bodies[e['body']]
            old = sim.tree.links[e['body']].mass
            sim.tree.links[e['body']].mass = M
            if not phys.cond(sim.tree.mass(sim.kin(q, v))) < 1e6:
                sim.tree.links[e['body']].mass = old
                return
            if e['inplace']:
                b.mass[:] = M
            else:
                b.mass = model.hand(M)
            self.ctx.count('mass-edit')
        elif e['con'] in self.st.cons:
            getattr(self.st.cons[e['con']], e['kind'])()

    def run(self, run, first):
        ctx, core = self.ctx, self.core
        self.cur, self.cursim = self.w, self.sim
        ids = [self.plan['obs'][k]['id'] for k in run['order']]
        if run['other']:
            if self.other is None:
                self.other = model.Sim(self.plan['other'])
                self.other.w.init()
            self.cur, self.cursim = self.other.w, self.other
            ids = [i for i in ids if self.spec[i]['kind'] == 'energy']
            ctx.count('other-world')
        for e in run['edits']:
            self.edit(e)
        q, v = self.cursim.state()
        if not all(np.all(np.isfinite(x)) for d in (q, v) for x in d.values()):
            return False
        if max([np.abs(x).max(initial=0) for x in v.values()] + [0]) > 1e3 or not phys.cond(self.cursim.tree.mass(self.cursim.kin(q, v))) < 1e9:
            ctx.count('blown-up')
            return False
        w = self.cur
        tt = run['times']
        self.n = len(tt) - 1
        self.k, self.rows, self.ids, self.done = 0, [], ids, False
        for i in ids:
            ctx.count('obs:' + self.spec[i]['kind'])
            if i in self.length:
                if self.length[i] < self.n:
                    ctx.count('reuse-longer')
                elif self.length[i] > self.n:
                    ctx.count('reuse-shorter')
                if i in self.aborted:
                    ctx.count('reuse-after-abort')
                if self.length[i] > 1:
                    ctx.nontrivial = True
        if any(not l.mass.any() for l in self.cursim.tree.links.values()):
            ctx.count('massless')
        if self.n == 0:
            ctx.count('no-step')
        f = self.rfault = run['fault']
        self.fired = False
        obs = [self.obs[i] for i in ids]
        if f is not None:
            obs.insert(f['pos'] % (len(obs) + 1), self.saboteur)
        obs.append(self.shadow)
        hook = engine.inject_at_line(ctx, f['n'], f['exc']) if f is not None and f['kind'] == 'line' else None
        ni = len(ctx.injected)
        ok = False
        try:
            if hook:
                hook.__enter__()
            try:
                with sut(ctx, 'run', skip=self.blown):
                    (self.by_hand if run['manual'] else core.simulate)(w, tt, obs)
                    ok = True
            finally:
                if hook:
                    hook.__exit__()
        except BaseException as e:
            if not any(e is i for i in ctx.injected):
                raise
            ctx.count('aborted')
            self.aborted.update(ids)
        else:
            if not ok:
                return False
            if len(ctx.injected) == ni:
                self.after(ids)
        self.rfault = None
        for i in ids:
            self.length[i] = self.n
        self.check_kept()
        if len(ctx.injected) == ni:
            for i in ids:
                if self.spec[i]['kind'] != 'com':
                    rec = self.entries(i)
                    self.kept.append((i, rec if isinstance(rec, tuple) else (rec,), [r[i] for r in self.rows]))
        ctx.log('run', self.k, self.fired, float(w.current_time))
        ctx.sig(tuple(sorted(self.spec[i]['kind'] for i in ids)), self.n, f['kind'] if self.fired or f and f['kind'] == 'line' else None, tuple(e['kind'] for e in run['edits']))
        return True

    def blown(self):
        q, v = self.cursim.state()
        if not all(np.all(np.isfinite(x)) for d in (q, v) for x in d.values()):
            return True
        if max([np.abs(x).max(initial=0) for x in v.values()] + [0]) > 30:
            return True
        return not phys.cond(self.cursim.tree.mass(self.cursim.kin(q, v))) < 1e9

    def by_hand(self, w, tt, obs):
        self.ctx.count('manual')
        engine.set_clock(w, tt[0])
        w.init()
        for o in obs:
            o.init(w, tt)
        for a, b in zip(tt[:-1], tt[1:]):
            dt = b - a
            w.update_dynamic()
            w.update_controllers(dt)
            w.update_constraints(dt)
            for o in obs:
                o.update(dt)
            w.integrate(dt)
        for o in obs:
            o.finish()

    def after(self, ids):
        ck = self.ctx.check
        ck(self.done and self.k == self.n, 'steps', 'the run made %d of %d steps' % (self.k, self.n))
        for i in ids:
            kd = self.spec[i]['kind']
            if kd == 'com':
                continue
            rec = self.entries(i)
            for l in rec if kd == 'energy' else (rec,):
                ck(len(l) == self.n, 'length', 'recorder of %s holds %d entries after a run of %d steps' % (kd, len(l), self.n))
        self.check_rows()

    def check_kept(self):
        """what the user kept of earlier runs"""
        for i, rec, want in self.kept:
            kd = self.spec[i]['kind']
            n = len(rec[0])
            self.ctx.check(n == len(want), 'kept-length', 'the record of %s kept from an earlier run now has %d entries instead of %d' % (kd, n, len(want)))
            for k, x in enumerate(want):
                self.same_entry(i, kd, k, rec if kd == 'energy' else rec[0], x, ' after another run')


def execute(plan, ctx):
    with sut(ctx, 'building'):
        B = Bench(plan, ctx)
    B.length, B.aborted = {}, set()
    for k, run in enumerate(plan['runs']):
        if not B.run(run, k == 0):
            return
