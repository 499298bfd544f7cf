"""C01: every step solves the discretised equations of motion."""
import numpy as np
from .. import phys, ref, model
from ..phys import close, err

ID = 'C01'
LEVEL = 'exploration'
TECHNIQUE = 'seeded step histories with aborted steps, clock irregularities and model edits, checked against an independent Newton-Euler model'
NOTE = ('Sampled histories of small random trees; trusts the independent reference model dst/ref.py (product of exponentials, '
        'numerical tolerance 1e-7) and numpy. No proof of absence.')
NAMES = True
RUNS_QUICK = 3500
RUNS_THOROUGH = 40000
RULE = ('one run = one random tree (1-6 bodies over 13 joint types, off-centre inertias, viscosities), controllers, '
        'an irregular timeline and seeded events and aborted steps; non-trivial when at least 3 steps were checked '
        'and some velocity was non-zero; distinct by the digest of the full event log')
STATES = 'tuples (set of joint types, dof count, step-size decade, event kinds so far, abort phase)'
REAL = ['arboris.core World/Body/SubFrame/Joint/simulate', 'arboris.joints', 'arboris.controllers', 'arboris.twistvector',
        'arboris.homogeneousmatrix', 'arboris.rigidmotion', 'numpy']
STUB = ['user controllers and observers (scripted)', 'clock of the timeline (scripted steps)']
ASSUMPTIONS = ['floating point: relative tolerance 1e-7 on the step equation, 1e-9 on the model terms',
               'models with a mass matrix of condition number below 1e5 at the start of the run']
EVENTS = ['set_state', 'move_anchor', 'visc', 'mass', 'init', 'update_dynamic', 'update_geometric', 'add_body', 'replace_joint',
          'retarget', 'add_controller']


def generate(r, tier):
    m = model.gen_model(r, nmax=6 if tier == 'quick' else 8)
    n = r.randint(3, 14)
    ctls = phys.gen_controllers(r, m)
    return dict(model=m, controllers=ctls, steps=phys.gen_steps(r, n), mode=r.choice(['manual', 'simulate']),
                events=phys.gen_events(r, m, ctls, n, EVENTS, r.choice([0, 0.15, 0.5])),
                faults=phys.gen_faults(r, n, r.choice([0, 0.1, 0.3])))


def summary(p):
    return dict(joints=[b['joint'] for b in p['model']['bodies']], parents=[b['parent'] for b in p['model']['bodies']],
                controllers=[c['type'] for c in p['controllers']], steps=p['steps'][:6], mode=p['mode'],
                events=[(e['at'], e['kind']) for e in p['events']], faults=p['faults'][:4])


def execute(plan, ctx):
    st = None
    seen = []

    def pre(s):
        K = s.K
        t = st.sim.tree
        ok = phys.well_posed(s)
        if not ok:
            return
        g = t.stack(K, s.v)
        ctx.check(close(s.gvel, g, 1e-12), 'gvel-mismatch',
                  lambda: 'world velocity is not the joints\' velocities: ' + err(s.gvel, g))
        M = t.mass(K)
        ctx.check(close(s.M, M, 1e-9), 'mass-matrix', lambda: 'mass matrix ' + err(s.M, M))
        B = t.visc(K)
        ctx.check(close(s.B, B, 1e-9), 'viscosity-matrix', lambda: 'viscosity matrix ' + err(s.B, B))
        h = t.bias(K, g)
        sc = 1. + np.abs(h).max(initial=0) + np.abs(M).max(initial=0) * np.abs(g).max(initial=0) ** 2
        ctx.check(close(s.N @ g, h, 1e-9, sc), 'coriolis', lambda: 'N v is not the Newton-Euler bias: ' + err(s.N @ g, h))
        F, Z = st.ref_forces(s)
        ctx.check(close(s.F, F, 1e-9), 'force-sum', lambda: 'generalized force is not the sum of the controllers\': ' + err(s.F, F))
        s.refF, s.refZ, s.refM, s.refB = F, Z, M, B

    def post(s, e):
        if not hasattr(s, 'refF'):
            return
        K, dt = s.K, s.dt
        A = s.refM / dt + s.refB + s.N - s.refZ
        lhs = A @ e.gvel
        rhs = s.refM @ s.gvel / dt + s.refF
        sc = 1e-3 + np.abs(A).max(initial=0) * np.abs(e.gvel).max(initial=0) + np.abs(rhs).max(initial=0)
        if phys.cond(A) < 1e9:
            ctx.check(close(lhs, rhs, 1e-7, sc), 'step-equation',
                      lambda: 'end-of-step velocity misses the discretised equation of motion (dt=%g): %s' % (dt, err(lhs, rhs)))
        g = st.sim.tree.stack(K, e.v)
        ctx.check(close(e.gvel, g, 1e-12), 'gvel-mismatch', lambda: 'joint velocities differ from the world\'s after the step: ' + err(g, e.gvel))
        for i in K.order:
            kind = st.sim.tree.links[i].kind
            if kind == 'Fixed':
                continue
            q1 = ref.advance(kind, s.q[i], e.v[i], dt)
            ctx.check(close(e.q[i], q1, 1e-10), 'position-update',
                      lambda: '%s joint position did not advance by its new velocity over dt=%g: %s' % (kind, dt, err(e.q[i], q1)))
        ctx.check(abs(e.t - (s.t + dt)) <= 1e-12 * (1 + abs(e.t)), 'clock', lambda: 'clock at %r after a step of %r from %r' % (e.t, dt, s.t))
        seen.append(np.abs(e.gvel).max(initial=0))
        ctx.sig(tuple(sorted(set(l.kind for l in st.sim.tree.links.values()))), K.n, int(np.floor(np.log10(dt))),
                tuple(sorted(k for k in ctx.counts)))

    st = phys.Stepper(plan, ctx, pre, post)
    st.run()
    ctx.nontrivial = len(seen) >= 3 and max(seen) > 1e-6
