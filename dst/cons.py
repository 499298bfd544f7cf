"""Constraint workloads shared by C04-C08, C17, C18: scene generation, spied
constraints (ordinary subclasses which record the calls the world makes and then
delegate), and independent geometry and velocity evaluation of each constraint."""
import math
import numpy as np
from . import ref, model, phys, engine
from .engine import sut, cb
from .model import L, hand


# --- geometry -----------------------------------------------------------------
def shape_pose(tree_H, frames, s):
    """world pose of the frame of a shape"""
    f = frames.get(s['frame'])
    if f is None:
        return tree_H[s['frame']]
    return tree_H[f[0]] @ f[1]


def ref_pair(sa, Ha, sb, Hb):
    """signed distance, normal a->b, closest points on a and on b"""
    ta, tb = sa['type'], sb['type']
    order = {'Plane': 0, 'Box': 1, 'Sphere': 2, 'Point': 3}
    if order[ta] > order[tb]:
        d, n, pb, pa = ref_pair(sb, Hb, sa, Ha)
        return d, -n, pa, pb
    rb = sb.get('radius', 0.)
    cb_ = Hb[:3, 3]
    if ta == 'Plane':
        c = np.array(sa['coeffs'], dtype=float)
        c = c / np.linalg.norm(c[:3])
        return ref.sd_plane_sphere(Ha, c, cb_, rb)
    if ta == 'Box':
        return ref.sd_box_sphere(Ha, np.array(sa['he']), cb_, rb)
    return ref.sd_sphere_sphere(Ha[:3, 3], sa.get('radius', 0.), cb_, rb)


def point_jac(K, body, P):
    """Jacobian (3 x n) of the body point now at world position P, world axes"""
    R, p = K.H[body][:3, :3], K.H[body][:3, 3]
    J = K.J[body]
    W = R @ J[:3]
    return R @ J[3:] - ref.hat(P - p) @ W, W


# --- spied constraints -------------------------------------------------------------
class Spy:
    """mixin: records the calls of the world, then delegates"""

    def spy_init(self, cid, st):
        self._spy = (cid, st)
        self.spy_reset()

    def spy_reset(self):
        self.n_update = 0
        self.actives = []
        self.solves = []
        self.last_d = None

    def update(self, dt):
        self.n_update += 1
        cid, st = self._spy
        st.cons_trace.append(('update', cid, dt))
        return super().update(dt)

    def is_active(self):
        a = super().is_active()
        self.actives.append(bool(a))
        cid, st = self._spy
        st.cons_trace.append(('active', cid, bool(a)))
        return a

    def solve(self, vel, admittance, dt):
        cid, st = self._spy
        st.n_solves += 1
        if st.on_before is not None:
            st.on_before(cid, self)
        if st.on_solve is not None:
            v, y = np.array(vel, copy=True), np.array(admittance, copy=True)
            d = super().solve(vel, admittance, dt)
            self.last_d = np.array(d, dtype=float)
            st.on_solve(cid, self, v, y, dt, np.array(d, copy=True))
            self.solves.append(dt)
            return d
        self.solves.append(dt)
        d = super().solve(vel, admittance, dt)
        self.last_d = np.array(d, dtype=float)
        return d


_cls = {}


def spied(name):
    if 'JointLimits' not in _cls:
        from arboris import constraints as C
        for n in ('JointLimits', 'BallAndSocketConstraint', 'SoftFingerContact'):
            _cls[n] = type('Spied' + n, (Spy, getattr(C, n)), {})
    return _cls[name]


def user_jac(spec, n):
    i, j = np.arange(spec['m']), np.arange(n)
    return np.sin(np.add.outer(1.9 * i, 2.3 * j) + spec['phase'] + 0.7 * np.multiply.outer(i, j))


def spied_user():
    if 'user' not in _cls:
        from arboris import core

        class UserConstraint(core.Constraint):
            """a constraint defined by the user of the library"""

            def __init__(self, spec, st):
                core.Constraint.__init__(self, name=st.sim.nm(spec['id']))
                self.spec, self.st, self.ctx = spec, st, st.ctx
                self._force = np.zeros(spec['m'])
                self.flip = 1.
                self.n = None

            @cb
            def init(self, world):
                self.n = world.ndof

            @property
            def jacobian(self):
                return user_jac(self.spec, self.n)

            @property
            def ndol(self):
                return self.spec['m']

            def _maybe_raise(self, where):
                f = self.st.user_fault
                if f is not None and f['where'] == where and f['con'] == self.spec['id']:
                    f['count'] -= 1
                    if f['count'] <= 0:
                        self.st.user_fault = None
                        e = engine.make_exc(f['exc'])
                        self.ctx.injected.append(e)
                        self.ctx.count('fault:user-constraint-' + where)
                        self.ctx.log('user fault', where, self.spec['id'])
                        raise e

            @cb
            def update(self, dt):
                self._maybe_raise('update')
                if self.spec['reset']:
                    self._force[:] = 0.
                    self.flip = 1.

            @cb
            def is_active(self):
                a = self.spec['act']
                return a[self.st.k % len(a)]

            @cb
            def solve(self, vel, admittance, dt):
                self._maybe_raise('solve')
                s, f = self.spec, self._force
                I = np.eye(s['m'])
                if s['law'] == 'bilateral':
                    d = -np.linalg.pinv(admittance + s['soft'] * I, 1e-8) @ (vel + s['soft'] * f - s['target'])
                elif s['law'] == 'damper':
                    d = -np.linalg.pinv(I + s['k'] * admittance, 1e-8) @ (f + s['k'] * vel)
                elif s['law'] == 'unilateral':
                    d = np.zeros(s['m'])
                    v = vel.copy()
                    for i in range(s['m']):
                        x = max(0., f[i] - (v[i] - s['target']) / max(admittance[i, i], 1e-9))
                        d[i] = x - f[i]
                        v = v + admittance[:, i] * d[i]
                elif s['law'] == 'const':
                    d = s['k'] - f
                else:
                    self.flip = -self.flip
                    d = np.full(s['m'], s['k'] * self.flip)
                self._force = f + d
                return d
        _cls['user'] = type('SpiedUserConstraint', (Spy, UserConstraint), {})
    return _cls['user']


def gen_user(r, cid):
    return dict(id=cid, type='user', m=r.choice([1, 1, 2, 3]), phase=r.uniform(0, 6), reset=r.random() < 0.5,
                act=r.choice([[True], [True], [False], [True, False], [False, True], [True, True, False, False]]),
                law=r.choice(['bilateral', 'bilateral', 'damper', 'unilateral', 'const', 'restless']), k=r.uniform(0.1, 3.),
                soft=r.choice([0., 0.01]), target=r.uniform(-.5, .5), off=r.random() < 0.15)


def add_constraint(st, spec):
    """create, spy and register; returns the live constraint"""
    from arboris import observers as O
    sim = st.sim
    cid = spec['id']
    if spec['type'] == 'limits':
        kw = {} if spec.get('prox') is None else dict(proximity=hand(spec['prox']))
        if len(spec['min']) == 1 and spec.get('scalar'):
            c = spied('JointLimits')(sim.joints[spec['joint']], spec['min'][0], spec['max'][0], name=sim.nm(cid),
                                     **({} if not kw else dict(proximity=spec['prox'][0])))
        else:
            c = spied('JointLimits')(sim.joints[spec['joint']], hand(spec['min']), hand(spec['max']), name=sim.nm(cid), **kw)
    elif spec['type'] == 'ball':
        c = spied('BallAndSocketConstraint')(frames=tuple(sim.frame(f) for f in spec['frames']), name=sim.nm(cid))
    elif spec['type'] == 'contact':
        kw = {} if spec.get('prox') is None else dict(proximity=spec['prox'])
        c = spied('SoftFingerContact')(tuple(sim.shapes[s] for s in spec['shapes']), spec['mu'], name=sim.nm(cid), **kw)
    else:
        c = spied_user()(spec, st)
    c.spy_init(cid, st)
    before = list(sim.w.itermovingsubframes())
    sim.w.register(c)
    st.cframes[cid] = [f for f in sim.w.itermovingsubframes() if not any(f is b for b in before)]
    if spec['type'] == 'contact':
        st.ctx.check(len(st.cframes[cid]) == 2, 'frames', 'registering a contact adds %d moving frames to the world instead of 2' % len(st.cframes[cid]))
    if spec.get('off'):
        c.disable()
    st.cons[cid] = c
    st.con_spec[cid] = spec
    st.enabled[cid] = not spec.get('off')
    st.rec[cid] = O.RecordConstForce(c)
    return c


class ConStepper(phys.Stepper):
    """phys.Stepper with constraints"""

    def __init__(self, plan, ctx, pre=None, post=None, before=None, on_solve=None):
        self.cons_trace, self.n_solves, self.on_solve, self.on_before = [], 0, on_solve, None
        self.cframes, self.enabled, self.rec = {}, {}, {}
        self.user_fault, self.k = None, 0
        phys.Stepper.__init__(self, plan, ctx, pre, post, before)
        if 'gs_tol' in plan:
            self.TIGHT = (plan['gs_iters'], plan['gs_tol'])
        for s in plan.get('constraints', ()):
            with sut(ctx, 'registering a constraint'):
                add_constraint(self, s)

    def reset_spies(self):
        self.cons_trace = []
        self.n_solves = 0
        for c in self.cons.values():
            if isinstance(c, Spy):
                c.spy_reset()

    def step_calls(self, dt):
        self.reset_spies()
        phys.Stepper.step_calls(self, dt)

    def take(self, dt):
        s = phys.Stepper.take(self, dt)
        s.Y = np.array(self.w.admittance, copy=True)
        s.force, s.active, s.iters, s.last_d = {}, {}, 0, {}
        self.R = {cid: np.array(fr[0].pose[:3, :3], copy=True) for cid, fr in self.cframes.items() if fr}
        s.R = self.R
        s.trace = self.cons_trace
        for cid, c in self.cons.items():
            if cid in self.rec:
                r = self.rec[cid]
                r.init(self.w, [0., 1.])
                r.update(dt)
                s.force[cid] = np.array(r.get_record()[-1], dtype=float)
            if isinstance(c, Spy):
                s.active[cid] = bool(c.actives and c.actives[-1]) and self.enabled[cid]
                s.iters = max(s.iters, len(c.solves))
                s.last_d[cid] = c.last_d
                s.cons[cid].n_update, s.cons[cid].n_solve = c.n_update, len(c.solves)
                s.cons[cid].n_active = len(c.actives)
        s.maxit = self.TIGHT[0] if self.plan.get('gs') == 'tight' and self.plan.get('mode') != 'simulate' else 1000
        s.tight = s.maxit == self.TIGHT[0] and self.plan.get('gs') == 'tight' and self.plan.get('mode') != 'simulate'
        s.converged = s.iters < s.maxit
        if not s.converged:
            self.ctx.count('unconverged-step')
        self.reset_spies()
        return s

    final = False

    def ill_now(self):
        """the state the world is in is out of the regime of the linearised model"""
        if self.stop or self.final or self.singular_now():
            return True
        if self.k >= len(self.plan['steps']):
            return False
        q, v = self.sim.state()
        vmax = max([np.abs(x).max(initial=0) for x in v.values()] + [0])
        Y = self.w.admittance
        return not (vmax * max(self.plan['steps']) < 0.3 and Y.ndim == 2 and np.all(np.isfinite(Y)) and np.linalg.eigvalsh(Y + Y.T).min(initial=1) > 0)

    def on_pre(self, s):
        s.cnd, s.ratio, s.posed = np.inf, 1., False
        if not self.stop:
            s.cnd = self.independent(s)
        s.judged = s.posed and s.converged and self.residuals(s) <= (1e-7 * (1 + np.abs(s.gvel).max(initial=0)) if s.tight else 0.02)
        phys.Stepper.on_pre(self, s)

    def on_post(self, s, e):
        phys.Stepper.on_post(self, s, e)
        if self.final:
            self.stop = True

    def residuals(self, s):
        """s.res[cid]: bound on the change of the velocities of cid after its last solve"""
        s.res = {}
        worst = 0.
        act = [cid for cid in self.cons if s.active.get(cid)]
        sizes = [len(s.force[cid]) for cid in act]
        ends = np.cumsum([0] + sizes)
        if ends[-1] != s.J.shape[0] or any(s.last_d.get(cid) is None for cid in act):
            return np.inf
        Y = s.J @ s.Y @ s.J.T
        for i, cid in enumerate(act):
            t = 0.
            if self.con_spec[cid]['type'] == 'limits':
                B = np.abs(Y[ends[i]:ends[i + 1], ends[i]:ends[i + 1]] * s.last_d[cid])
                t = np.triu(B, 1).sum()         # dofs solved one after the other
            for j in range(i + 1, len(act)):
                t += np.abs(Y[ends[i]:ends[i + 1], ends[j]:ends[j + 1]] @ s.last_d[act[j]]).max(initial=0)
            s.res[cid] = t
            worst = max(worst, t)
        return worst

    # events
    def ev_enable(self, e):
        if e['con'] in self.cons:
            self.cons[e['con']].enable()
            self.enabled[e['con']] = True

    def ev_disable(self, e):
        if e['con'] in self.cons:
            self.cons[e['con']].disable()
            self.enabled[e['con']] = False

    def ev_add_constraint(self, e):
        s = e['spec']
        if s['id'] in self.cons:
            return
        add_constraint(self, s)
        self.w.init()

    # reference views ----------------------------------------------------------
    def fpose(self, K, fid):
        return self.sim.frame_pose_ref(K, fid)

    def fbody(self, fid):
        return self.sim.fbody.get(fid, fid)

    def contact_ref(self, K, cid):
        """d, n (from body a to body b), contact points, bodies (a, b) with a the
        body of the first registered contact frame"""
        sp = self.con_spec[cid]
        sa, sb = [self.sim.shape_spec[x] for x in sp['shapes']]
        Ha, Hb = self.fpose(K, sa['frame']), self.fpose(K, sb['frame'])
        d, n, pa, pb = ref_pair(sa, Ha, sb, Hb)
        ba, bb = self.fbody(sa['frame']), self.fbody(sb['frame'])
        f0 = self.cframes[cid][0]
        if f0.body is not self.sim.bodies[ba]:
            ba, bb, n, pa, pb = bb, ba, -n, pb, pa
        return d, n, pa, pb, ba, bb

    def contact_jac(self, K, cid, R=None):
        """4 x n Jacobian [wz, vx, vy, vz] of b relative to a, at a's contact
        point, in the axes of the first contact frame (rotation R)"""
        d, n, pa, pb, ba, bb = self.contact_ref(K, cid)
        R = self.R[cid] if R is None else R
        Ja, Wa = point_jac(K, ba, pa)
        Jb, Wb = point_jac(K, bb, pa)
        J = np.vstack([(R.T @ (Wb - Wa))[2:3], R.T @ (Jb - Ja)])
        return J, d, n, R

    def ball_jac(self, K, cid):
        """3 x n Jacobian of the velocity of frame 1's body point at frame 0's
        origin relative to frame 0, in frame 0 axes; and the gap p_01"""
        f0, f1 = self.con_spec[cid]['frames']
        H0, H1 = self.fpose(K, f0), self.fpose(K, f1)
        b0, b1 = self.fbody(f0), self.fbody(f1)
        P = H0[:3, 3]
        J0, W0 = point_jac(K, b0, P)
        J1, W1 = point_jac(K, b1, P)
        R = H0[:3, :3]
        return R.T @ (J1 - J0), R.T @ (H1[:3, 3] - P), R.T @ (W1 - W0)


    def rows(self, K, cids):
        """rows of the stacked constraint Jacobian; for the snapshot last taken"""
        out = [np.zeros((0, K.n))]
        for cid in cids:
            t = self.con_spec[cid]['type']
            if t == 'limits':
                out.append(np.eye(K.n)[K.dof[self.con_spec[cid]['joint']]])
            elif t == 'ball':
                out.append(self.ball_jac(K, cid)[0])
            elif t == 'contact':
                out.append(self.contact_jac(K, cid)[0])
            else:
                out.append(user_jac(self.con_spec[cid], K.n))
        return np.vstack(out)

    def independent(self, s, limit=1e4):
        """condition of the stacked problem of the active constraints, infinite when
        the step is not well posed: the constraints then need not be satisfiable
        together, or the linearised dynamics is not dissipative (speed * dt too big)"""
        K = s.K
        act = [cid for cid in self.cons if s.active.get(cid)]
        J = s.J = self.rows(K, act)
        vmax = max([np.abs(x).max(initial=0) for x in s.v.values()] + [0])
        c = np.inf
        s.posed = False
        if np.all(np.isfinite(s.Y)) and vmax * s.dt < 0.3 and np.linalg.eigvalsh(s.Y + s.Y.T).min(initial=1) > 0:
            s.posed = True
            Y = J @ s.Y @ J.T
            if Y.size == 0 or np.linalg.eigvalsh(Y + Y.T).min() > 0:
                c = scaled_cond(Y)
                s.ratio = math.sqrt(np.diag(Y).max() / np.diag(Y).min()) if Y.size else 1.
                if c < limit:
                    d = np.sqrt(np.diag(Y))
                    skew = np.abs((Y - Y.T) / np.outer(d, d)).max(initial=0) if Y.size else 0.
                    if skew * c > 1.:
                        c = np.inf
        if not c < limit:
            self.ctx.count('ill-posed-step')
            if not s.posed or (len(act) > 1 and (self.k > 0 or vmax > 50 or c == np.inf)):
                self.final = True
        if not s.converged and not self.plan.get('keep_going'):
            self.final = True
        return c


def scaled_cond(Y):
    if Y.size == 0:
        return 1.
    d = np.diag(Y)
    if not (np.all(np.isfinite(Y)) and d.min() > 0):
        return np.inf
    d = 1 / np.sqrt(d)
    return phys.cond(Y * np.outer(d, d))


def law_tol(s, cid):
    """tolerance on the constraint velocities of cid: what the constraints solved
    after it in the last sweep still changed (its own law held exactly after its
    own solve), plus rounding"""
    V = 1. + np.abs(s.gvel).max(initial=0)
    return 1.01 * s.res.get(cid, 0.) + 1e-9 * V


# --- scene generation ---------------------------------------------------------------
def free_admittance(tree, K, J):
    M = tree.mass(K)
    return J @ np.linalg.solve(M, J.T)


def plan_rows(m, tree, K, cs):
    out = [np.zeros((0, K.n))]
    fr = {f['id']: f for f in m['frames']}
    for c in cs:
        if c['type'] == 'limits':
            out.append(np.eye(K.n)[K.dof[c['joint']]])
            continue
        if c['type'] == 'user':
            out.append(user_jac(c, K.n))
            continue
        a, b = [fr[f] for f in (c['frames'] if c['type'] == 'ball' else [c['id'] + 'a', c['id'] + 'b'])]
        P = (K.H[b['body']] @ model.mat(b['H']))[:3, 3]
        Ja, Wa = point_jac(K, a['body'], P)
        Jb, Wb = point_jac(K, b['body'], P)
        out.append(Jb - Ja)
        if c['type'] == 'contact':
            out.append((np.array(c['n']) @ (Wb - Wa))[None])
    return np.vstack(out)


def plan_cond(m, tree, K, cs):
    J = plan_rows(m, tree, K, cs)
    return scaled_cond(free_admittance(tree, K, J))


def _frame(m, fid, body, H, moving=False):
    m['frames'].append(dict(id=fid, body=body, H=L(H), moving=moving))


INF = float('inf')


def gen_limits(r, m, cid, q=None, wide=0.25):
    cand = [b for b in m['bodies'] if b['joint'] not in ('Free', 'Fixed')]
    if not cand:
        return None
    b = r.choice(cand)
    mn, mx = [], []
    prox = None
    if r.random() < 0.4:
        prox = [r.choice([0.001, 0.05, 0.3]) for _ in b['gpos']]
    for i, x in enumerate(b['gpos']):
        p = 0.01 if prox is None else prox[i]
        u = r.random()
        side = r.choice([-1, 1])
        width = r.choice([r.uniform(0.1, 3.), r.uniform(0.1, 3.), 0.005, 0.])
        if u < 0.35:
            off = r.uniform(0, p)            # within the band
        elif u < 0.5:
            off = -r.uniform(0, 0.02)        # beyond
        elif u < 0.55:
            off = 0.
        elif u < 0.7:
            off = p + r.uniform(0, 0.02)     # just outside of the band
        else:
            off = r.uniform(0.3, 3.)
            width += off
        width = max(width, off - 0.02)
        if side < 0:
            mn.append(x - off)
            mx.append(x - off + max(width, 0.))
        else:
            mx.append(x + off)
            mn.append(x + off - max(width, 0.))
    if r.random() < 0.15:   # one-sided limits
        for i, x in enumerate(b['gpos']):
            if r.random() < 0.7:
                if x - mn[i] > mx[i] - x:
                    mn[i] = -INF
                else:
                    mx[i] = INF
    elif r.random() < 0.1:  # whole numbers, given as such
        mn = [int(np.floor(x)) for x in mn]
        mx = [int(np.ceil(x)) for x in mx]
    return dict(id=cid, type='limits', joint=b['id'], min=mn, max=mx, prox=prox, scalar=r.random() < 0.5,
                off=r.random() < 0.12)


def gen_ball(r, m, tree, K, cid, gap=0.3, floating=False):
    ids = ['g'] * (not floating) + [b['id'] for b in m['bodies']]
    for _ in range(12):
        a, b = r.choice(ids), r.choice(ids)
        if a == b:
            continue
        Ha = model.rnd_H(r, 0.5)
        g = np.zeros(3) if r.random() > gap else np.array([r.uniform(-1, 1) for _ in range(3)]) * 10 ** r.uniform(-5, -2.3)
        W = ref.mk(model.rnd_rot(r), (K.H[a] @ Ha)[:3, 3] + g)
        Hb = ref.hinv(K.H[b]) @ W
        P = (K.H[a] @ Ha)[:3, 3]
        J = point_jac(K, b, P)[0] - point_jac(K, a, P)[0]
        Y = free_admittance(tree, K, J)
        if phys.cond(Y) > 300 or np.trace(Y) < 1e-3:
            continue
        _frame(m, cid + 'a', a, Ha, r.random() < 0.25)
        _frame(m, cid + 'b', b, Hb, r.random() < 0.25)
        return dict(id=cid, type='ball', frames=[cid + 'a', cid + 'b'], off=r.random() < 0.1)
    return None


def gen_contact(r, m, tree, K, cid, kinds=('plane', 'sphere', 'box', 'point', 'planepoint', 'boxpoint'), apart=False,
                ground=0.6, gaps=None, floating=False):
    ids = [b['id'] for b in m['bodies']]
    for _ in range(14):
        b = r.choice(ids)
        a = 'g' if (r.random() < ground and not floating) else r.choice(ids)
        if a == b:
            continue
        kind = r.choice(kinds)
        rad = 0. if kind.endswith('point') else r.uniform(0.02, 0.4)
        Hb = model.rnd_H(r, 0.4)
        c = (K.H[b] @ Hb)[:3, 3]
        n = model.rnd_axis(r)
        if r.random() < 0.25:
            n = np.array([0., 1., 0.])
        u = r.random()
        if apart:
            g = r.uniform(1e-4, 0.02) if u < 0.7 else r.uniform(0.02, 0.08)
        else:
            g = r.uniform(0., 0.01) if u < 0.4 else (-(10 ** r.uniform(-6, -2.2)) if u < 0.65 else (
                0. if u < 0.7 else r.uniform(0.01, 0.06)))
        if gaps is not None:
            g = r.choice(gaps)
        P = c - n * (rad + g)                    # point wanted on the surface of a
        shp = dict(id=cid + 'A', frame=cid + 'a')
        if kind.startswith('plane'):
            Rf = model.rnd_rot(r, 0.5)
            nl = Rf.T @ n
            org = P + (np.eye(3) - np.outer(n, n)) @ np.array([r.uniform(-1, 1) for _ in range(3)]) * r.choice([0., 1.])
            off = r.choice([0., r.uniform(-1, 1)])
            org = org - n * off
            sc = r.choice([1., 1., r.uniform(0.3, 4.)])
            shp.update(type='Plane', coeffs=[float(x) * sc for x in nl] + [off * sc])
            HW = ref.mk(Rf, org)
        elif kind in ('sphere', 'point'):
            ra = r.uniform(0.05, 0.5) if (kind == 'point' or r.random() < 0.85) else 0.
            if ra == 0. and rad == 0.:
                continue
            if ra == 0.:
                shp.update(type='Point')
            else:
                shp.update(type='Sphere', radius=ra)
            HW = ref.mk(model.rnd_rot(r), P - n * ra)
        else:
            he = np.array([r.uniform(0.1, 1.) for _ in range(3)])
            Rf = model.rnd_rot(r, 0.4)
            ax = r.randrange(3)
            s = r.choice([-1., 1.])
            pl = np.array([r.uniform(-0.9, 0.9) * h for h in he])
            pl[ax] = s * he[ax]
            nl = np.zeros(3)
            nl[ax] = s
            # rotate so that the face normal is n
            v = Rf @ nl
            if np.dot(v, n) < -0.999:
                continue
            w = np.cross(v, n)
            A = np.eye(3) + ref.hat(w) + ref.hat(w) @ ref.hat(w) / (1 + np.dot(v, n))
            Rf = A @ Rf
            uu, _, vv = np.linalg.svd(Rf)
            Rf = uu @ vv
            shp.update(type='Box', he=L(he))
            HW = ref.mk(Rf, P - Rf @ pl)
        shb = dict(id=cid + 'B', frame=cid + 'b')
        shb.update(dict(type='Point') if rad == 0. else dict(type='Sphere', radius=rad))
        if shp['type'] == 'Point' and shb['type'] == 'Point':
            continue
        HA = ref.hinv(K.H[a]) @ HW
        HA[3] = [0, 0, 0, 1]
        # mobility along the contact directions
        J = point_jac(K, b, P)[0] - point_jac(K, a, P)[0]
        Y = free_admittance(tree, K, J)
        yn = n @ Y @ n
        if yn < 0.02 or yn < 0.02 * np.trace(Y):
            continue
        fa, fb = (dict(id=cid + 'a', body=a, H=L(HA), moving=r.random() < 0.2),
                  dict(id=cid + 'b', body=b, H=L(Hb), moving=r.random() < 0.2))
        m['frames'] += [fa, fb]
        m.setdefault('shapes', []).extend([shp, shb])
        sh = [cid + 'A', cid + 'B']
        if r.random() < 0.4:
            sh.reverse()
        return dict(id=cid, type='contact', shapes=sh, n=L(n), mu=r.choice([0., 0.05, 0.3, 0.8, 1.5, r.uniform(0, 1)]),
                    prox=r.choice([None, None, 0.02, 0.1, 0.003]), off=r.random() < 0.1)
    return None


def gen_scene(r, kinds, nmin=1, nmax=3, bmax=4, joints=None, root=None, tries=60, vamp=1.5, massless=0.1, contact_kw=None,
              ball_gap=0.3, indep=1e4, floating=False, anchors=('H0', 'H1')):
    """a model with constraints of the given kinds (list with weights by repetition)"""
    for _ in range(tries):
        m = model.gen_model(r, nmin=2 if floating else 1, nmax=bmax, joints=joints, root='Free' if floating else root, floating=floating, vamp=vamp, massless=massless, visc=0.25, frames=1, condmax=1e4, anchors=anchors)
        m['shapes'] = []
        tree = model.ref_tree(m)
        q, v = model.plan_state(m)
        K = tree.kin(q, v, False)
        cons = []
        n = r.randint(nmin, nmax)
        k = 0
        seenj = set()
        for _ in range(4 * n):
            if len(cons) >= n:
                break
            kd = r.choice(kinds)
            cid = 'k%d' % k
            k += 1
            if kd == 'limits':
                c = gen_limits(r, m, cid)
                if c is not None and c['joint'] in seenj:
                    continue
            elif kd == 'user':
                c = gen_user(r, cid)
            elif kd == 'ball':
                if any(c['type'] == 'ball' for c in cons) and r.random() < 0.7:
                    continue
                c = gen_ball(r, m, tree, K, cid, ball_gap, floating)
            else:
                c = gen_contact(r, m, tree, K, cid, **dict(contact_kw or {}, floating=floating))
            if c is None:
                continue
            if indep and not plan_cond(m, tree, K, cons + [c]) < indep:
                fr = set((cid + 'a', cid + 'b'))
                m['frames'] = [f for f in m['frames'] if f['id'] not in fr]
                m['shapes'] = [x for x in m['shapes'] if x['frame'] not in fr]
                continue
            if c['type'] == 'limits':
                seenj.add(c['joint'])
            cons.append(c)
        if len(cons) >= nmin:
            return m, cons
    raise RuntimeError('no scene')


def gen_con_events(r, cons, nsteps, rate=0.15, m=None):
    """enabling and disabling; with a model, also small motions of the movable frames the constraints use"""
    out = []
    mv = []
    if m is not None:
        used = set(f for c in cons for f in c.get('frames', ()))
        shp = set(x for c in cons for x in c.get('shapes', ()))
        used |= set(x['frame'] for x in m.get('shapes', ()) if x['id'] in shp)
        mv = [f for f in m['frames'] if f['moving'] and f['id'] in used]
    if mv and r.random() < 0.6:
        for k in range(1, nsteps):
            if r.random() < 0.25:
                f = r.choice(mv)
                a = r.choice([0., 1e-3, 1e-2]) * r.uniform(0.2, 1)
                D = ref.mk(ref.rot(model.rnd_axis(r), a * r.choice([0., 1., 10.])), [a * r.uniform(-1, 1) for _ in range(3)])
                out.append(dict(at=k, kind='move_frame', frame=f['id'], H=L(np.array(f['H']) @ D)))
    if r.random() < .15:
        out.append(dict(at=r.randint(1, max(1, nsteps - 1)), kind='rebind'))
    for k in range(1, nsteps):
        if cons and r.random() < rate:
            out.append(dict(at=k, kind=r.choice(['enable', 'disable']), con=r.choice(cons)['id']))
    return out


def con_steps(r, n, micro=0.05):
    base = r.choice([1e-3, 2e-3, 5e-3, 1e-2])
    out = []
    if r.random() < 0.25:
        return [base] * n
    for _ in range(n):
        u = r.random()
        out.append(base * (r.uniform(0.7, 1.3) if u < 0.85 else (r.uniform(1.5, 3.) if u < 1 - micro else r.uniform(0.05, 0.2))))
    return out


def gen_multi(r):
    """one free body with several shapes over a plane: redundant but satisfiable"""
    n = model.rnd_axis(r) if r.random() < 0.6 else np.array([0., 1., 0.])
    H = ref.mk(model.rnd_rot(r), np.array([r.uniform(-1, 1) for _ in range(3)]))
    b = dict(id='b0', parent='g', joint='Free', gpos=L(H), gvel=[r.gauss(0, .4) for _ in range(6)], H0=None, H1=None,
             mass=L(model.rnd_mass6(r)), visc=None)
    bodies = [b]
    if r.random() < 0.4:
        kd = r.choice(['Rx', 'Ry', 'Tz', 'RzRx'])
        bodies.append(dict(id='b1', parent='b0', joint=kd, gpos=model.rnd_q(r, kd), gvel=model.rnd_v(r, kd),
                           H0=L(model.rnd_H(r, 0.3)), H1=None, mass=L(model.rnd_mass6(r)), visc=None))
    m = dict(bodies=bodies, frames=[], shapes=[])
    k = r.randint(2, 5)
    # the plane passes below all of the points
    off = r.uniform(-.5, .5)
    cons = []
    P0 = H[:3, 3] - n * r.uniform(0.3, 0.6)
    HW = ref.mk(model.rnd_rot(r), P0)
    nl = HW[:3, :3].T @ n
    m['frames'].append(dict(id='pl', body='g', H=L(HW), moving=False))
    m['shapes'].append(dict(id='PL', type='Plane', frame='pl', coeffs=[float(x) for x in nl] + [0.]))
    mu = r.choice([0., 0.3, 0.8, 1.2])
    t1 = np.cross(n, model.rnd_axis(r))
    t1 /= np.linalg.norm(t1)
    t2 = np.cross(n, t1)
    for i in range(k):
        rad = r.choice([0., r.uniform(0.02, 0.15)])
        a = 2 * math.pi * i / k + r.uniform(-.3, .3)
        g = r.choice([0., r.uniform(0, 0.01), -(10 ** r.uniform(-6, -3))])
        P = P0 + (t1 * math.cos(a) + t2 * math.sin(a)) * r.uniform(0.2, 0.6) + n * (rad + g)
        HB = ref.hinv(H) @ ref.mk(model.rnd_rot(r), P)
        HB[3] = [0, 0, 0, 1]
        m['frames'].append(dict(id='f%d' % i, body='b0', H=L(HB), moving=False))
        m['shapes'].append(dict(id='S%d' % i, frame='f%d' % i, **(dict(type='Point') if rad == 0. else dict(type='Sphere', radius=rad))))
        sh = ['PL', 'S%d' % i]
        if r.random() < .5:
            sh.reverse()
        cons.append(dict(id='k%d' % i, type='contact', shapes=sh, n=L(n), mu=mu, prox=None, off=False))
    return m, cons


def planar_chain(r, nmin=3, nmax=5):
    """a tree of parallel hinges and slides moving in one plane"""
    ax = r.randrange(3)
    rot = ['Rx', 'Ry', 'Rz'][ax]
    tr = [t for i, t in enumerate(['Tx', 'Ty', 'Tz']) if i != ax]
    e = np.zeros(3)
    e[ax] = 1.

    def flat_H():
        p = np.array([r.uniform(-.7, .7) for _ in range(3)])
        p[ax] = 0.
        a = r.uniform(-2, 2)
        return ref.mk(ref.rot(e, a) if r.random() < 0.6 else np.eye(3), p)
    bodies = []
    n = r.randint(nmin, nmax)
    base = model.rnd_H(r, 0.4)
    for i in range(n):
        kd = rot if r.random() < 0.75 else r.choice(tr)
        H0 = base if i == 0 else flat_H()
        m6 = ref.mass_matrix(r.uniform(0.3, 4.), [r.uniform(0.22, 0.5) for _ in range(3)], np.eye(3), flat_H()[:3, 3])
        bodies.append(dict(id='b%d' % i, parent='g' if i == 0 else ('b%d' % (i - 1) if r.random() < .85 else r.choice(['b%d' % k for k in range(i)])),
                           joint=kd, gpos=[r.uniform(-1, 1)], gvel=[r.uniform(-1, 1) * r.choice([0, 1])],
                           H0=L(H0), H1=None if r.random() < .6 else L(flat_H()), mass=L(m6), visc=None))
    return dict(bodies=bodies, frames=[], shapes=[]), flat_H


def planar_scene(r):
    """contacts of a planar mechanism: their admittance is singular"""
    while True:
        m, _ = planar_chain(r, 1, 4)
        tree = model.ref_tree(m)
        if not phys.tree_ok(r, tree):
            continue
        q, v = model.plan_state(m)
        K = tree.kin(q, v, False)
        cs = []
        for i in range(r.randint(1, 2)):
            c = gen_contact(r, m, tree, K, 'k%d' % i, gaps=[0., 1e-3, 5e-3, -1e-4, 0.015])
            if c is not None:
                cs.append(c)
        if cs:
            return m, cs
