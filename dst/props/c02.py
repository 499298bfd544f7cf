"""C02: poses, twists and Jacobians agree with the joint tree."""
import numpy as np
from .. import phys, ref, model
from ..phys import close, err

ID = 'C02'
LEVEL = 'exploration'
TECHNIQUE = ('seeded histories of steps, state overwrites, frame moves, joint replacements, added links and aborted updates, '
             'every frame compared with an independent kinematic model')
NOTE = ('Sampled histories of small random trees; trusts the independent product-of-exponentials kinematics in dst/ref.py '
        '(tolerance 1e-9). No proof of absence.')
NAMES = True
RUNS_QUICK = 3000
RUNS_THOROUGH = 40000
RULE = ('one run = one random tree with registered fixed and moving frames and a seeded history of steps, state overwrites, '
        'frame moves, joint replacements, added links and updates aborted at a random line; non-trivial when at least 3 '
        'instants with non-zero velocity were compared; distinct by the digest of the full event log')
STATES = 'tuples (joint types, tree shape, event kinds so far, aborts so far)'
REAL = ['arboris.core', 'arboris.joints', 'arboris.rigidmotion', 'arboris.homogeneousmatrix', 'arboris.twistvector', 'numpy']
STUB = ['timeline (scripted steps)', 'user actions (scripted)']
ASSUMPTIONS = ['floating point: relative tolerance 1e-9']
EVENTS = ['set_state', 'move_anchor', 'move_frame', 'move_frame', 'add_body', 'replace_joint', 'init', 'update_dynamic', 'update_geometric',
          'geometric_only', 'aborted_update']


def generate(r, tier):
    m = model.gen_model(r, nmax=6 if tier == 'quick' else 8, frames=5, vamp=3., qamp=2.5)
    mv = [f for f in m['frames'] if f['moving']]
    if len(mv) >= 2 and r.random() < 0.4:
        mv[1]['H'] = mv[0]['H']
        mv[1]['share'] = mv[0]['id']
    n = r.randint(2, 9)
    ctls = phys.gen_controllers(r, m)
    ev = phys.gen_events(r, m, ctls, n, EVENTS, r.choice([0.2, 0.6]))
    for e in ev:
        if e['kind'] == 'aborted_update':
            e['n'] = int(r.expovariate(1 / 300.)) + 1
            e['fk'] = r.choice(phys.FAULT_KINDS)
            e['geo'] = r.random() < 0.3
        if e['kind'] == 'geometric_only':
            jk = {b['id']: b['joint'] for b in m['bodies']}
            e['q'] = {i: model.rnd_q(r, jk[i]) for i in jk if jk[i] != 'Fixed'}
    # joint types may have changed by a replacement: keep only type-independent ones
    if any(e['kind'] in ('replace_joint',) for e in ev):
        ev = [e for e in ev if e['kind'] not in ('set_state', 'geometric_only')]
    return dict(model=m, controllers=ctls, steps=phys.gen_steps(r, n), mode=r.choice(['manual', 'manual', 'simulate']),
                events=ev, faults=phys.gen_faults(r, n, r.choice([0, 0.2])))


def summary(p):
    return dict(joints=[b['joint'] for b in p['model']['bodies']], parents=[b['parent'] for b in p['model']['bodies']],
                frames=[(f['body'], f['moving'], f.get('share')) for f in p['model']['frames']],
                events=[(e['at'], e['kind']) for e in p['events']], mode=p['mode'], faults=p['faults'][:3])


TOL = 1e-9


def check_joint(ctx, i, kind, j, q, v):
    H, J, dJ = ref.joint_local(kind, q, v)
    T = J @ v if J.shape[1] else np.zeros(6)

    def ck(name, got, want):
        ctx.check(close(got, want, TOL), 'joint-' + name, lambda: '%s of a %s joint: %s' % (name, kind, err(got, want)))
    ck('pose', j.pose, H)
    ck('ipose', j.ipose, ref.hinv(H))
    ck('jacobian', j.jacobian, J)
    ck('djacobian', j.djacobian, dJ)
    ck('twist', j.twist, T)
    Ti = -ref.Ad(H) @ T
    ck('itwist', j.itwist, Ti)
    ck('adjoint', j.adjoint, ref.Ad(H))
    ck('iadjoint', j.iadjoint, ref.Ad(ref.hinv(H)))
    ck('adjacency', j.adjacency, ref.ad(T))
    ck('iadjacency', j.iadjacency, ref.ad(Ti))
    ck('dadjoint', j.dadjoint, ref.Ad(H) @ ref.ad(T))
    ck('idadjoint', j.idadjoint, ref.Ad(ref.hinv(H)) @ ref.ad(Ti))


def execute(plan, ctx):
    st = None
    n = [0]

    def frames():
        sim = st.sim
        for i, b in sim.bodies.items():
            yield 'body', i, b, i, np.eye(4)
        for f, fr in sim.frames.items():
            yield ('moving frame' if hasattr(type(fr).bpose, 'fset') and type(fr).bpose.fset else 'frame'), f, fr, sim.fbody[f], sim.fH[f]
        for i, j in sim.joints.items():
            lk = sim.tree.links[i]
            ctx.check(isinstance(j.frames, (tuple, list)) and len(j.frames) == 2, 'frames', 'joint %s has the frames %r' % (i, j.frames))
            f0, f1 = j.frames
            yield 'joint reference frame', i, f0, lk.parent, lk.H0
            yield 'joint frame', i, f1, i, lk.H1

    def pre(s):
        if not np.all(np.isfinite(s.gvel)) or np.abs(s.gvel).max(initial=0) > 1e4:
            return
        K, sim = s.K, st.sim
        for what, fid, fr, b, H in frames():
            def ck(name, got, want, sc=None):
                ctx.check(close(got, want, TOL, sc), name,
                          lambda: '%s of %s %s: %s' % (name, what, fid, err(got, want)))
            ck('pose', fr.pose, K.H[b] @ H)
            A = ref.Ad(ref.hinv(H))
            ck('jacobian', fr.jacobian, A @ K.J[b])
            ck('twist', fr.twist, A @ K.T[b])
            ck('djacobian', fr.djacobian, A @ K.dJ[b])
            ck('bpose', fr.bpose, H)
            ctx.check(fr.body is sim.bodies[b], 'body', 'frame %s is not attached to %s' % (fid, b))
        for i, j in sim.joints.items():
            if i in s.q and sim.tree.links[i].kind != 'Fixed':
                check_joint(ctx, i, sim.tree.links[i].kind, j, s.q[i], s.v[i])
            elif sim.tree.links[i].kind == 'Fixed':
                check_joint(ctx, i, 'Fixed', j, np.zeros(0), np.zeros(0))
        ctx.log('frames', [fr.pose for _, _, fr, _, _ in frames()])
        n[0] += np.abs(s.gvel).max(initial=0) > 1e-6
        ctx.sig(tuple(l.kind for l in sim.tree.links.values()), tuple(l.parent for l in sim.tree.links.values()),
                tuple(sorted(k for k in ctx.counts)))

    def ev_geometric_only(e):
        """the user poses the model and only asks for the poses"""
        sim = st.sim
        for i, q in e['q'].items():
            if i in sim.joints and sim.tree.links[i].kind != 'Fixed':
                sim.joints[i].gpos[:] = np.array(q)
        st.w.update_geometric()
        K = sim.kin()
        for what, fid, fr, b, H in frames():
            ctx.check(close(fr.pose, K.H[b] @ H, TOL), 'pose-after-geometric',
                      lambda: 'pose of %s %s after update_geometric: %s' % (what, fid, err(fr.pose, K.H[b] @ H)))

    def ev_aborted_update(e):
        from .. import engine
        with engine.inject_at_line(ctx, e['n'], e['fk']):
            try:
                with engine.sut(ctx, 'update'):
                    (st.w.update_geometric if e['geo'] else st.w.update_dynamic)()
            except BaseException as x:
                if not any(x is i for i in ctx.injected):
                    raise
                ctx.count('aborted-update')

    st = phys.Stepper(plan, ctx, pre)
    st.handlers = dict(geometric_only=ev_geometric_only, aborted_update=ev_aborted_update)
    st.run()
    ctx.nontrivial = n[0] >= 2
