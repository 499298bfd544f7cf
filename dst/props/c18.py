"""C18: contact frames track the closest points of moving shapes."""
import math
import numpy as np
from .. import phys, ref, model, cons
from ..engine import sut, cb
from ..phys import close, err
from ..model import L
from .c06 import ambiguous

ID = 'C18'
LEVEL = 'exploration'
TECHNIQUE = ('seeded motion histories of shapes in arbitrary frames (contacts acting, or sensor contacts created by get_all_contacts and exerting nothing, so '
             'that shapes also overlap deeply), teleports, moved frames, enable/disable and aborted steps; every frame and distance against an independent geometry model')
NOTE = ('Sampled shape pairs, placements and histories; configurations whose closest points are not unique are skipped. No proof of absence.')
NAMES = True
RUNS_QUICK = 5000
RUNS_THOROUGH = 60000
RULE = ('one run = one moving scene of several shapes under one schedule of steps, teleports, frame moves and faults; non-trivial when a contact geometry '
        'was compared; distinct by event-log digest')
STATES = 'tuples (pair of shape types, order given, region of the closest point, overlapping or not, overlap deeper than the sphere radius)'
REAL = ['arboris.collisions', 'arboris.constraints', 'arboris.shapes', 'arboris.core', 'arboris.joints', 'arboris.observers.RecordDistance', 'numpy']
STUB = ['timeline (scripted)', 'user actions (scripted)']
ASSUMPTIONS = ['floating point tolerance relative to the size of the scene', 'plane convention n.x = d, as in the doctests, the drawers and the contacts']
PROBES = ['pair:Box-Sphere', 'pair:Box-Point', 'pair:Plane-Sphere', 'pair:Plane-Point', 'pair:Sphere-Sphere', 'pair:Sphere-Point', 'center-inside-box', 'center-on-face', 'negative-face',
          'deep-overlap', 'all-contacts', 'acting', 'event:move_frame']
RUN_TIMEOUT = 120
SUPPORTED = {('Sphere', 'Sphere'), ('Point', 'Sphere'), ('Plane', 'Sphere'), ('Box', 'Sphere'), ('Plane', 'Point'), ('Box', 'Point')}


def off_H(r):
    H = model.rnd_H(r, 0.5)
    H[:3, 3] = [r.uniform(-.5, .5) for _ in range(3)]
    return H


def gen_shapes(r, m):
    ids = ['g'] + [b['id'] for b in m['bodies']]
    n = r.randint(2, 5)
    for i in range(n):
        t = r.choice(['Plane', 'Box', 'Box', 'Sphere', 'Sphere', 'Sphere', 'Point', 'Cylinder'] if i else ['Sphere'])
        b = r.choice(ids)
        fid = b
        t0 = [s for s in m['shapes'] if s['frame'] in ids]
        if r.random() < 0.75 or t0:         # no two centres can coincide: at most one shape at the origin of a body
            fid = 'h%d' % i
            m['frames'].append(dict(id=fid, body=b, H=L(off_H(r)), moving=r.random() < 0.4))
        s = dict(id='s%d' % i, frame=fid, type=t)
        if t == 'Plane':
            a = model.rnd_axis(r) if r.random() < 0.7 else np.array(r.choice([[0., 1., 0.], [1., 0., 0.], [0., 0., -1.]]))
            sc = r.choice([1., r.uniform(.3, 4.)])
            s['coeffs'] = [float(x) * sc for x in a] + [r.uniform(-1, 1) * sc]
        elif t == 'Box':
            s['he'] = [r.choice([r.uniform(0.05, 1.5), 0.5]) for _ in range(3)]
        elif t == 'Sphere':
            s['radius'] = r.choice([r.uniform(0.01, 0.3), r.uniform(0.3, 1.5)])
        elif t == 'Cylinder':
            s['length'], s['radius'] = r.uniform(.1, 1), r.uniform(.05, .5)
        m['shapes'].append(s)


def generate(r, tier):
    n = r.randint(2, 6)
    if r.random() < 0.45:
        m, cs = cons.gen_scene(r, ['contact', 'contact', 'ball'], 1, 3, bmax=4)
        ghost = False
    else:
        m = model.gen_model(r, nmin=1, nmax=4, visc=0.2, frames=0, vamp=r.choice([1., 8.]))
        m['shapes'], cs = [], []
        gen_shapes(r, m)
        ghost = True
    rest = ghost and r.random() < .15       # everything at rest: only the user moves things
    if rest:
        for b in m['bodies']:
            b['gvel'] = [0 for _ in b['gvel']] if b.get('int') else [0. for _ in b['gvel']]
    steps = cons.con_steps(r, n)
    ev = cons.gen_con_events(r, cs, n, 0.2, m=m)
    jk = {b['id']: b['joint'] for b in m['bodies']}
    mv = [f['id'] for f in m['frames'] if f['moving']]
    for k in range(1, n):
        if ghost and r.random() < 0.3:
            ids = [i for i in jk if jk[i] != 'Fixed']
            ev.append(dict(at=k, kind='set_state', whole=r.random() < .3, q={i: phys.rnd_state_q(r, jk[i]) for i in ids},
                           v={i: L(np.array(model.rnd_v(r, jk[i])) * (0. if rest else 1.)) for i in ids}))
        if ghost and mv and r.random() < 0.3:
            ev.append(dict(at=k, kind='move_frame', frame=r.choice(mv), H=L(off_H(r))))
    if ghost and mv:
        # the centre of a sphere is placed exactly on a face of a box, or at the centre of another sphere
        on = {f['id']: f['body'] for f in m['frames']}
        balls = [s for s in m['shapes'] if s['type'] == 'Sphere' and s['frame'] in mv]
        for k in range(1, n):
            if not balls or r.random() > .35:
                continue
            s = r.choice(balls)
            other = [x for x in m['shapes'] if x['type'] in ('Box', 'Sphere') and on.get(x['frame'], x['frame']) != on[s['frame']]]
            if not other:
                continue
            x = r.choice(other)
            H = model.rnd_H(r, 0.5)
            if x['type'] == 'Box':
                H[:3, 3] = [r.uniform(-.95, .95) * h for h in x['he']]
                i = r.randrange(3)
                H[i, 3] = r.choice([-1., 1.]) * x['he'][i]
            else:
                H[:3, 3] = 0.
            ev.append(dict(at=k, kind='snap', frame=s['frame'], on=x['frame'], H=L(H)))
    return dict(model=m, constraints=cs, ghost=ghost, controllers=[] if rest else phys.gen_controllers(r, m, sym=True, user=0.), steps=steps, keep_going=True,
                mode=r.choice(['manual', 'manual', 'simulate']), events=ev, faults=phys.gen_faults(r, n, r.choice([0, 0.15]), 2000))


def summary(p):
    sh = {s['id']: s['type'] for s in p['model']['shapes']}
    return dict(joints=[(b['joint'], b['parent']) for b in p['model']['bodies']], shapes=list(sh.values()), sensors=p['ghost'],
                constraints=[(c['type'], [sh[x] for x in c.get('shapes', ())]) for c in p['constraints']], steps=p['steps'][:4], mode=p['mode'])


def region(sa, Ha, sb, Hb):
    if 'Box' not in (sa['type'], sb['type']):
        return ''
    if sb['type'] == 'Box':
        sa, Ha, sb, Hb = sb, Hb, sa, Ha
    p = Ha[:3, :3].T @ (Hb[:3, 3] - Ha[:3, 3])
    o = np.abs(p) > np.array(sa['he'])
    if not o.any():
        q = np.array(sa['he']) - np.abs(p)
        return 'inside%d%s' % (int(np.argmin(q)), '-' if p[int(np.argmin(q))] < 0 else '+')
    return 'out%d%s' % (int(o.sum()), ''.join('+' if x > 0 else '-' for x, y in zip(p, o) if y))


def box_local(spec, H):
    i = 0 if spec[0]['type'] == 'Box' else 1
    return H[i][:3, :3].T @ (H[1 - i][:3, 3] - H[i][:3, 3])


def execute(plan, ctx):
    hit = [0]
    ghosts = []             # (sid a, sid b as given, contact)

    def judge(st, s, sids, c, con_frames, what):
        """sids: the two shapes, the first one being on the body of the first frame"""
        K = s.K
        spec = [st.sim.shape_spec[x] for x in sids]
        H = [st.fpose(K, x['frame']) for x in spec]
        d, n, pa, pb = cons.ref_pair(spec[0], H[0], spec[1], H[1])
        size = 1. + np.abs(pa).max() + np.abs(pb).max() + max(np.abs(h[:3, 3]).max() for h in H)
        tol = 1e-8 * size
        f = con_frames
        for i in (0, 1):
            b = st.fbody(spec[i]['frame'])
            ctx.check(f[i].body is st.sim.bodies[b], 'body', '%s: frame %d is not attached to the body of its shape' % (what, i))
            P = np.array(f[i].pose)
            p = (pa, pb)[i]
            ctx.check(close(P[:3, 3], p, tol, 1.), 'point', lambda: '%s: the contact frame on the %s is not at the closest point of its surface: %s (gap %g)' % (what, spec[i]['type'], err(P[:3, 3], p), d))
            ctx.check(close(P[:3, 2], n, 1e-7, 1.), 'normal', lambda: '%s: z axis of the frame on the %s %s instead of the normal %s' % (what, spec[i]['type'], P[:3, 2], n))
            ctx.check(close(P[:3, :3].T @ P[:3, :3], np.eye(3), 1e-9, 1.) and np.linalg.det(P[:3, :3]) > 0 and close(P[3], [0, 0, 0, 1], 0, 1.), 'pose', '%s: contact frame is not a rigid placement' % what)
            # fixed to the body
            R = P[:3, :3]
            Jp, W = cons.point_jac(K, b, P[:3, 3])
            Jr = np.vstack([R.T @ W, R.T @ Jp])
            v = s.gvel
            ctx.check(close(f[i].twist, Jr @ v, 1e-8, 1 + np.abs(Jr).max() * (1 + np.abs(v).max(initial=0))), 'twist', lambda: '%s: the contact frame does not move with its body: %s' % (what, err(f[i].twist, Jr @ v)))
        P0, P1 = np.array(f[0].pose), np.array(f[1].pose)
        ctx.check(close(P0[:3, :3], P1[:3, :3], 1e-9, 1.), 'orientation', '%s: the contact frames do not have the same orientation' % what)
        g = P0[:3, 2] @ (P1[:3, 3] - P0[:3, 3])
        ctx.check(abs(g - d) <= tol, 'gap', lambda: '%s: distance along the normal %.9g instead of %.9g' % (what, g, d))
        hit[0] += 1
        pair = '-'.join(sorted(x['type'] for x in spec))
        if spec[0]['type'] == 'Plane':
            pair = '-'.join(x['type'] for x in spec)
        pair = {'Point-Sphere': 'Sphere-Point'}.get(pair, pair)
        ctx.count('pair:' + pair)
        rg = region(spec[0], H[0], spec[1], H[1])
        if rg and abs(np.min(np.array(next(x['he'] for x in spec if x['type'] == 'Box')) - np.abs(box_local(spec, H)))) < 1e-9:
            ctx.count('center-on-face')
        if rg.startswith('inside'):
            ctx.count('center-inside-box')
            if rg.endswith('-'):
                ctx.count('negative-face')
        rad = min(x.get('radius', np.inf) for x in spec)
        deep = bool(d < -rad)
        if deep:
            ctx.count('deep-overlap')
        ctx.sig(pair, sids[0] < sids[1], rg, bool(d < 0), deep)
        return d, tol

    kept = {}

    def distances(st, s, a, b, d, tol, what):
        from arboris import observers as O
        for x, y in ((a, b), (b, a)):
            with sut(ctx, 'RecordDistance'):
                if a < b:
                    # the same recorder at every step
                    if (x, y) not in kept:
                        rd = kept[x, y] = O.RecordDistance(st.sim.shapes[x], st.sim.shapes[y])
                        rd.init(st.w, [float(i) for i in range(1000)])
                        rd.n = 0
                    rd = kept[x, y]
                    rd.n += 1
                    i = rd.n - 1
                else:
                    rd = O.RecordDistance(st.sim.shapes[x], st.sim.shapes[y])
                    rd.init(st.w, [0., 1.])
                    i = 0
                rd.update(s.dt)
                v = rd.get_record()[i]
            ctx.check(abs(float(v) - d) <= tol, 'distance', lambda: '%s: recorded distance %.9g instead of %.9g' % (what, v, d))

    def pre(s):
        K = s.K
        for cid, sp in st.con_spec.items():
            if sp['type'] != 'contact':
                continue
            if not st.enabled[cid] or ambiguous(st, K, cid):
                continue
            ctx.count('acting')
            a, b = sp['shapes']
            f = st.cframes[cid]
            # the constraint keeps its own order of the shapes
            ba = st.sim.bodies[st.fbody(st.sim.shape_spec[a]['frame'])]
            order = (a, b) if f[0].body is ba else (b, a)
            what = '%s of %s' % (cid, [st.sim.shape_spec[x]['type'] for x in sp['shapes']])
            d, tol = judge(st, s, order, st.cons[cid], f, what)
            distances(st, s, a, b, d, tol, what)
            # a contact given the other way round
            from arboris import core, constraints as C
            P = np.array([x.pose for x in f])
            with sut(ctx, 'contact given the other way round'):
                c2 = C.SoftFingerContact((st.sim.shapes[b], st.sim.shapes[a]), 0.5)
                c2.update(s.dt)
                w2 = core.World()
                w2.register(c2)
                f2 = list(w2.itermovingsubframes())
            if len(f2) == 2:
                Q = np.array([x.pose for x in f2])
                if f2[0].body is not f[0].body or (a, b) != tuple(sp['shapes']):
                    Q = Q[::-1]
                z = 1. if f2[0].body is f[0].body else -1.
                ctx.check(close(Q[:, :3, 3], P[:, :3, 3], tol, 1.) and close(z * Q[:, :3, 2], P[:, :3, 2], 1e-7, 1.), 'order',
                          lambda: '%s: frames depend on the order of the shapes' % what)
        for a, b, c, f in ghosts:
            sa, sb = [st.sim.shape_spec[x] for x in (a, b)]
            st.con_spec['tmp'] = dict(type='contact', shapes=[a, b])
            amb = ambiguous(st, K, 'tmp')
            del st.con_spec['tmp']
            if amb:
                ctx.count('ambiguous-geometry')
                continue
            ba = st.sim.bodies[st.fbody(sa['frame'])]
            order = (a, b) if f[0].body is ba else (b, a)
            what = 'sensor of %s' % [x['type'] for x in (sa, sb)]
            d, tol = judge(st, s, order, c, f, what)
            distances(st, s, a, b, d, tol, what)

    st = cons.ConStepper(plan, ctx, pre, None)
    if plan['ghost']:
        from arboris import constraints as C

        class Sensor(C.PointContact):
            """a contact which only maintains its frames"""

            def __init__(self, shapes, tag):
                C.PointContact.__init__(self, shapes, None, 0.1, None)
                self._force = np.zeros(1)
                self.given = shapes
                self.tag = tag

            @property
            def ndol(self):
                return 1

            @property
            def jacobian(self):
                return np.zeros((1, st.w.ndof))

            def is_active(self):
                return False

            def solve(self, vel, admittance, dt):
                return np.zeros(1)
        with sut(ctx, 'get_all_contacts'):
            allc = C.get_all_contacts(st.w, Sensor, tag=7)
            soft = C.get_all_contacts(st.w, friction_coeff=0.3)
        ctx.check(all(isinstance(c, C.SoftFingerContact) for c in soft) and len(soft) == len(allc), 'all-contacts', '%d default contacts, %d of a chosen class' % (len(soft), len(allc)))
        ident = {id(v): k for k, v in st.sim.shapes.items()}
        got = []
        for c in allc:
            ctx.check(isinstance(c, Sensor) and c.tag == 7, 'all-contacts', 'contacts of another class or without the given arguments')
            got.append(tuple(sorted(ident[id(x)] for x in c.given)))
        want = []
        sp = plan['model']['shapes']
        for i, x in enumerate(sp):
            for y in sp[i + 1:]:
                if st.fbody(x['frame']) == st.fbody(y['frame']):
                    continue
                t = tuple(sorted((x['type'], y['type'])))
                if t in SUPPORTED or (t[1], t[0]) in SUPPORTED:
                    want.append(tuple(sorted((x['id'], y['id']))))
        ctx.check(sorted(got) == sorted(want), 'all-contacts', lambda: 'contacts found between %s instead of %s' % (sorted(got), sorted(want)))
        for c in allc:
            a, b = [ident[id(x)] for x in c.given]
            before = list(st.w.itermovingsubframes())
            with sut(ctx, 'registering a contact'):
                st.w.register(c)
            f = [x for x in st.w.itermovingsubframes() if not any(x is o for o in before)]
            ctx.check(len(f) == 2, 'frames', '%d frames registered for a contact' % len(f))
            ghosts.append((a, b, c, f))
            ctx.count('all-contacts')
    st.run()
    ctx.nontrivial = hit[0] > 0
