"""Random model plans (pure JSON), and the builder that turns a plan into a live
arboris world plus the independent reference tree."""
import math
import threading
import numpy as np
from . import ref

JOINTS_ALL = ['Free', 'Fixed', 'RzRyRx', 'RzRy', 'RzRx', 'RyRx', 'Rz', 'Ry', 'Rx',
              'TxTyTz', 'Tz', 'Ty', 'Tx']
JOINTS_LIN = [j for j in JOINTS_ALL if j not in ('Free', 'Fixed')]


def L(a):
    return np.asarray(a, dtype=float).tolist()


def rnd_axis(r):
    while True:
        v = np.array([r.gauss(0, 1) for _ in range(3)])
        n = np.linalg.norm(v)
        if n > 1e-3:
            return v / n


def rnd_rot(r, special=0.3):
    u = r.random()
    if u < special * 0.5:
        return np.eye(3)
    if u < special:
        ax = np.eye(3)[r.randrange(3)]
        return np.round(ref.rot(ax, r.choice([1, 2, 3]) * math.pi / 2))
    return ref.rot(rnd_axis(r), r.uniform(-math.pi, math.pi))


def rnd_H(r, scale=0.6, special=0.3):
    p = np.array([r.uniform(-scale, scale) for _ in range(3)])
    if r.random() < 0.15:
        p = np.zeros(3)
    return ref.mk(rnd_rot(r, special), p)


def rnd_mass(r, heavy=1.0):
    """(m, principal moments) of a physical solid"""
    m = math.exp(r.uniform(math.log(0.2), math.log(8.))) * heavy
    d = [r.uniform(0.1, 0.6) for _ in range(3)]
    Ip = [m / 3. * (d[(i + 1) % 3] ** 2 + d[(i + 2) % 3] ** 2) for i in range(3)]
    u = r.random()
    if u < 0.15:
        Ip = [Ip[0]] * 3
    elif u < 0.25:
        # points, rods, discs: semi-definite
        Ip = r.choice([[0., 0., 0.], [Ip[0], 0., Ip[0]], [Ip[0], Ip[0] + Ip[1], Ip[1]]])
    return m, Ip


def rnd_mass6(r, offset=0.4, heavy=1.0):
    m, Ip = rnd_mass(r, heavy)
    R = rnd_rot(r)
    c = np.zeros(3) if r.random() < 0.2 else np.array([r.uniform(-offset, offset) for _ in range(3)])
    M = ref.mass_matrix(m, Ip, R, c)
    return 0.5 * (M + M.T)


def rnd_visc(r):
    if r.random() < 0.4:
        return np.diag([r.uniform(0, 2.) for _ in range(6)])
    A = np.array([[r.gauss(0, 0.4) for _ in range(6)] for _ in range(6)])
    return A @ A.T


def rnd_q(r, kind, amp=1.2):
    if kind == 'Free':
        return L(ref.mk(rnd_rot(r, 0.2), [r.uniform(-1.5, 1.5) for _ in range(3)]))
    n = ref.NDOF[kind]
    if r.random() < 0.1:
        return [0.] * n
    a = 0.8 if kind.startswith('T') else amp
    return [r.uniform(-a, a) for _ in range(n)]


def rnd_v(r, kind, amp=2.0):
    n = ref.NDOF[kind]
    if r.random() < 0.15:
        return [0.] * n
    a = amp * r.choice([0.1, 0.5, 1.0])
    return [r.uniform(-a, a) for _ in range(n)]


def gen_model(r, nmin=1, nmax=6, joints=None, root=None, massless=0.15, visc=0.4,
              frames=2, condmax=1e5, bodyframes=0.4, prefix='b', vamp=2.0, qamp=1.2, floating=False,
              big=0.04, anchors=('H0', 'H1')):
    """a random well-posed tree; retries until the mass matrix is well conditioned.
    A few are big: long chains, wide trees, up to 24 bodies."""
    joints = joints or JOINTS_ALL
    big = nmax >= 4 and not floating and r.random() < big
    for k in range(200):
        n = r.randint(nmin, nmax)
        if big and k < 12:
            n = r.randint(9, 24)
        heavy = r.choice([1.] * 8 + [0.02, 0.004, 30.])
        bodies = []
        for i in range(n):
            par = 'g'
            if i > 0:
                u = r.random()
                par = bodies[-1]['id'] if u < 0.55 else (
                    r.choice(bodies)['id'] if u < 0.9 else 'g')
            kind = r.choice(joints)
            if i == 0 and root is not None:
                kind, par = root, 'g'
            elif par == 'g' and (floating or 'Free' in joints and r.random() < 0.2):
                kind = 'Free'
            b = dict(id='%s%d' % (prefix, i), parent=par, joint=kind,
                     gpos=[] if kind == 'Fixed' else rnd_q(r, kind, qamp),
                     gvel=rnd_v(r, kind, vamp),
                     H0=None if r.random() < bodyframes else L(rnd_H(r)),
                     H1=None if r.random() < bodyframes else L(rnd_H(r)),
                     mass=None if r.random() < massless else L(rnd_mass6(r, heavy=heavy)),
                     visc=L(rnd_visc(r)) if r.random() < visc else None)
            if kind not in ('Free', 'Fixed') and r.random() < 0.08:
                b['gpos'] = [int(round(x)) for x in b['gpos']]
                b['gvel'] = [int(round(x)) for x in b['gvel']]
                b['int'] = True
            elif kind == 'Free' and r.random() < 0.15:
                R = np.zeros((3, 3))
                R[range(3), r.choice([(0, 1, 2), (1, 2, 0), (2, 0, 1)])] = 1.
                b['gpos'] = L(ref.mk(R @ np.diag(r.choice([(1., 1., 1.), (-1., -1., 1.), (1., -1., -1.)])), [r.randint(-2, 2) for _ in range(3)]))
                b['gvel'] = [int(round(x)) for x in b['gvel']]
                b['int'] = True
            for k in anchors:
                if b[k] is not None and r.random() < .12:
                    b['mv' + k] = True      # the joint hangs on a moving subframe
            bodies.append(b)
        # the axes of a joint next to a massless body may not become parallel
        hollow = [b['id'] for b in bodies if b['mass'] is None]
        for b in bodies:
            if b['parent'] in hollow:
                b.pop('mvH0', None)
            if b['id'] in hollow:
                b.pop('mvH1', None)
        fr = []
        for k in range(r.randint(0, frames)):
            fr.append(dict(id='%sf%d' % (prefix, k),
                           body=r.choice(['g'] + [b['id'] for b in bodies]),
                           H=L(rnd_H(r)), moving=r.random() < 0.5))
        m = dict(bodies=bodies, frames=fr)
        t = ref_tree(m)
        q, v = plan_state(m)
        K = t.kin(q, v)
        if K.n == 0:
            continue
        M = t.mass(K)
        if np.linalg.cond(M) < condmax:
            return m
    raise RuntimeError('no well conditioned model found')


def mat(x):
    return None if x is None else np.array(x, dtype=float)


class Hand:
    """what the user hands in to the code under test. pool: equal arrays are one
    shared object; given: every array handed in, with its contents at that time"""
    pool = None
    given = None
    own = threading.local()     # .given: the same, of this thread only


def hand(a):
    """an array given as an argument to the code under test"""
    if a is None:
        return None
    a = np.array(a, copy=True)
    if Hand.pool is not None:
        k = (a.shape, a.dtype.str, a.tobytes())
        a = Hand.pool.setdefault(k, a)
    if Hand.given is not None:
        Hand.given.append((a, a.copy()))
    own = getattr(Hand.own, 'given', None)
    if own is not None:
        own.append(a)
    return a


def ref_tree(model):
    t = ref.RefTree()
    for b in model['bodies']:
        t.add(ref_link(b))
    return t


def ref_link(b):
    H0 = np.eye(4) if b.get('H0') is None else mat(b['H0'])
    H1 = np.eye(4) if b.get('H1') is None else mat(b['H1'])
    M = np.zeros((6, 6)) if b.get('mass') is None else mat(b['mass'])
    return ref.Link(b['id'], b['parent'], b['joint'], H0, H1, M, mat(b.get('visc')))


def plan_state(model):
    q, v = {}, {}
    for b in model['bodies']:
        q[b['id']] = np.array(b['gpos'], dtype=float)
        v[b['id']] = np.array(b['gvel'], dtype=float)
    return q, v


class Sim:
    """a live world built from a plan, with the reference tree alongside"""

    def __init__(self, model, named=True, register_frames=True):
        from arboris import core
        self.core = core
        self.w = core.World('w')
        self.bodies = {'g': self.w.ground}
        self.joints = {}
        self.anchors = {}
        self.frames = {}
        self.fbody = {}
        self.fraw = {}
        self.fH = {}
        self.shapes = {}
        self.shape_spec = {}
        self.named = named
        self.tree = ref.RefTree()
        for b in model['bodies']:
            self.add_body(b)
        for f in model.get('frames', ()):
            self.add_frame(f)
        for s in model.get('shapes', ()):
            self.add_shape(s)

    # -- construction ----------------------------------------------------
    def nm(self, name):
        """names are free: unique, absent, or shared by everything"""
        return name if self.named is True else ('it' if self.named == 'same' else None)

    def make_joint(self, b):
        from arboris import joints as J
        cls = getattr(J, b['joint'] + 'Joint')
        name = self.nm('j_' + b['id'])
        if b['joint'] == 'Fixed':
            return cls(name=name)
        if b.get('int'):
            return cls(gpos=hand(np.array(b['gpos']).astype(int).tolist()), gvel=hand([int(x) for x in b['gvel']]), name=name)
        return cls(gpos=hand(mat(b['gpos'])), gvel=hand(mat(b['gvel'])), name=name)

    def add_body(self, b):
        body = self.core.Body(name=self.nm(b['id']),
                              mass=hand(mat(b.get('mass'))), viscosity=hand(mat(b.get('visc'))))
        f0 = self.bodies[b['parent']]
        if b.get('H0') is not None:
            cls = self.core.MovingSubFrame if b.get('mvH0') else self.core.SubFrame
            f0 = cls(f0, hand(mat(b['H0'])), name=self.nm('f0_' + b['id']))
            if b.get('mvH0'):
                self.anchors[b['id'], 'H0'] = f0
        f1 = body
        if b.get('H1') is not None:
            cls = self.core.MovingSubFrame if b.get('mvH1') else self.core.SubFrame
            f1 = cls(body, hand(mat(b['H1'])), name=self.nm('f1_' + b['id']))
            if b.get('mvH1'):
                self.anchors[b['id'], 'H1'] = f1
        j = self.make_joint(b)
        self.w.add_link(f0, j, f1)
        self.bodies[b['id']] = body
        self.joints[b['id']] = j
        self.tree.add(ref_link(b))

    def add_frame(self, f):
        cls = self.core.MovingSubFrame if f.get('moving') else self.core.SubFrame
        H = self.fraw[f['share']] if f.get('share') in self.fraw else hand(mat(f['H']))
        self.fraw[f['id']] = H
        fr = cls(self.bodies[f['body']], H, name=self.nm(f['id']))
        self.w.register(fr)
        self.frames[f['id']] = fr
        self.fbody[f['id']] = f['body']
        self.fH[f['id']] = mat(f['H'])

    def frame(self, fid):
        return self.frames[fid] if fid in self.frames else self.bodies[fid]

    def add_shape(self, s):
        from arboris import shapes as S
        fr = self.frame(s['frame'])
        n = self.nm(s.get('label', s['id']))
        if s['type'] == 'Sphere':
            sh = S.Sphere(fr, s['radius'], name=n)
        elif s['type'] == 'Point':
            sh = S.Point(fr, name=n)
        elif s['type'] == 'Plane':
            sh = S.Plane(fr, tuple(s['coeffs']) if not s.get('arr') else hand(mat(s['coeffs'])), name=n)
        elif s['type'] == 'Box':
            sh = S.Box(fr, hand(mat(s['he'])), name=n)
        elif s['type'] == 'Cylinder':
            sh = S.Cylinder(fr, s['length'], s['radius'], name=n)
        self.w.register(sh)
        self.shapes[s['id']] = sh
        self.shape_spec[s['id']] = s

    # -- state -----------------------------------------------------------
    def state(self):
        q, v = {}, {}
        for i, j in self.joints.items():
            q[i] = np.array(j.gpos, dtype=float, copy=True)
            v[i] = np.array(j.gvel, dtype=float, copy=True)
        return q, v

    def set_state(self, q, v, init=True, whole=False):
        """the user overwrites the joint state between steps, then re-inits
        (positions alone need no init)"""
        for i, j in self.joints.items():
            if i in q and self.tree.links[i].kind != 'Fixed':
                if whole:
                    j.gpos = np.array(q[i])
                else:
                    j.gpos[:] = q[i]
                if init and whole:
                    j.gvel = np.array(v[i])
                elif init:
                    j.gvel[:] = v[i]
        if init:
            self.w.init()

    def kin(self, q=None, v=None):
        if q is None:
            q, v = self.state()
        return self.tree.kin(q, v)

    def frame_pose_ref(self, K, fid):
        if fid in self.frames:
            return K.H[self.fbody[fid]] @ self.fH[fid]
        return K.H[fid]


def rnd_dt(r, base=None):
    """irregular time steps: jitter around a base, stalls and jumps"""
    base = base if base is not None else r.choice([1e-3, 5e-3, 1e-2])
    u = r.random()
    if u < 0.7:
        return base * r.uniform(0.5, 1.5)
    if u < 0.85:
        return base * 1e-3 * r.uniform(0.5, 2)
    return base * r.uniform(2., 6.)
