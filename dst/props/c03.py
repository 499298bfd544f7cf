"""C03: weight and PD controllers deliver exactly their documented actuation."""
import copy
import numpy as np
from .. import phys, ref, model
from ..phys import close, err

ID = 'C03'
LEVEL = 'exploration'
TECHNIQUE = ('seeded histories with retargeting, renumbering model edits, aborted steps and permuted registration; force balance of '
             'every step against the documented laws')
NOTE = ('Sampled histories; the actuation is recovered from each step by force balance with the model matrices of the run itself '
        '(which C01 checks) and compared with the documented law at tolerance 1e-7. No proof of absence.')
NAMES = True
RUNS_QUICK = 3000
RUNS_THOROUGH = 40000
RULE = ('one run = one random tree with 1-4 weight, PD and user controllers, a seeded history of target and gain changes, '
        'dof renumbering, repeated registration, aborted steps, and a twin run with another registration order; non-trivial when a PD '
        'or weight force above 1e-6 was checked on at least 3 steps; distinct by the digest of the full event log')
STATES = 'tuples (controller kinds, joint types under PD control, event kinds so far, aborts)'
REAL = ['arboris.controllers', 'arboris.core', 'arboris.joints', 'numpy']
STUB = ['user controllers (scripted)', 'timeline (scripted steps)']
ASSUMPTIONS = ['floating point: relative tolerance 1e-7 on the force balance']
EVENTS = ['retarget', 'retarget', 'retarget', 'add_body', 'replace_joint', 'reregister', 'init', 'mass', 'add_controller', 'set_state', 'move_anchor']


def generate(r, tier):
    m = model.gen_model(r, nmax=6 if tier == 'quick' else 8, frames=0)
    n = r.randint(3, 10)
    ctls = phys.gen_controllers(r, m, n=4, weight=0.75, user=0.2)
    names = r.random()
    for c in ctls:
        if names < 0.2:
            c['name'] = None
        elif names < 0.35:
            c['name'] = 'same'
    ev = phys.gen_events(r, m, ctls, n, EVENTS, r.choice([0.2, 0.6]))
    if any(e['kind'] == 'replace_joint' for e in ev):
        ev = [e for e in ev if e['kind'] != 'set_state']
    perm = list(range(len(ctls)))
    r.shuffle(perm)
    return dict(model=m, controllers=ctls, steps=phys.gen_steps(r, n), mode=r.choice(['manual', 'simulate']),
                events=ev, faults=phys.gen_faults(r, n, r.choice([0, 0.2]), 2500), perm=perm)


def summary(p):
    return dict(joints=[b['joint'] for b in p['model']['bodies']], controllers=[(c['type'], c.get('joints')) for c in p['controllers']],
                events=[(e['at'], e['kind']) for e in p['events']], mode=p['mode'], perm=p['perm'], faults=p['faults'][:3])


def execute(plan, ctx):
    st = None
    seen = [0]
    cnd = [1.]
    traj = []

    def pre(s):
        F, Z = st.ref_forces(s)
        s.refF, s.refZ = F, Z
        ctx.check(close(s.F, F, 1e-9), 'force', lambda: 'generalized force at the start of the step: ' + err(s.F, F))
        # each user controller exactly once
        for cid, rc in st.refctls.items():
            if isinstance(rc, phys.RefUser):
                n = sum(1 for c, dt in st.user_calls if c == cid)
                ctx.check(n == 1, 'controller-calls', 'user controller %s was updated %d times in one step' % (cid, n))
                dts = [dt for c, dt in st.user_calls if c == cid]
                ctx.check(abs(dts[0] - s.dt) <= 1e-9 * (1 + s.t) * 1e-3 + 1e-15, 'controller-dt', 'user controller got dt=%r in a step of %r' % (dts[0], s.dt))

        st.user_calls = []

    def post(s, e):
        if not np.all(np.isfinite(e.gvel)) or np.abs(e.gvel).max(initial=0) > 1e4:
            ctx.check(np.all(np.isfinite(e.gvel)), 'not-finite', 'velocity not finite')
            return
        K, dt = s.K, s.dt
        A = s.M / dt + s.B + s.N
        sc = 1e-3 + np.abs(A).max(initial=0) * np.abs(e.gvel).max(initial=0) + np.abs(s.M).max(initial=0) * np.abs(s.gvel).max(initial=0) / dt
        sc += np.abs(s.refF).max(initial=0) + np.abs(s.refZ).max(initial=0) * np.abs(e.gvel).max(initial=0)
        act = A @ e.gvel - s.M @ s.gvel / dt            # what the controllers delivered
        want = np.zeros(K.n)
        for cid, rc in st.refctls.items():
            if isinstance(rc, phys.RefPD):
                ix = rc.idx(K)
                q1 = np.concatenate([e.q[j] for j in rc.joints])
                v1 = np.concatenate([e.v[j] for j in rc.joints])
                f = np.zeros(K.n)
                f[ix] = rc.kp @ (rc.qd - q1) + rc.kd @ (rc.vd - v1)
                want += f
                sc += np.abs(rc.kp).max() * (1 + np.abs(q1).max())
            else:
                F, Z = rc.force(st.sim, K, s.q, s.v, dt)
                want += F + Z @ e.gvel
        cnd[0] = max(cnd[0], phys.cond(A))
        if phys.cond(A) > 1e6:
            return
        ctx.check(close(act, want, 1e-8, sc), 'actuation',
                  lambda: 'delivered generalized force differs from weight + Kp(qd-q(t+dt)) + Kd(vd-v(t+dt)): ' + err(act, want))
        seen[0] += np.abs(want).max(initial=0) > 1e-6
        traj.append(e.gvel)
        ctx.sig(tuple(sorted(type(rc).__name__ for rc in st.refctls.values())),
                tuple(sorted(st.sim.tree.links[j].kind for rc in st.refctls.values() if isinstance(rc, phys.RefPD) for j in rc.joints)),
                tuple(sorted(k for k in ctx.counts)))

    def before(k, dt):
        st.user_calls = []

    st = phys.Stepper(plan, ctx, pre, post, before)
    st.run()
    ctx.nontrivial = seen[0] >= 3
    # twin: other registration order, no aborted steps
    main = list(traj)
    del traj[:]
    ctx2plan = dict(plan, controllers=[plan['controllers'][i] for i in plan['perm'] if i < len(plan['controllers'])], faults=[])
    st = phys.Stepper(ctx2plan, ctx, pre, post, before)
    st.run()
    if len(main) == len(traj) and cnd[0] < 1e6:
        sc = 1. + max([np.abs(v).max(initial=0) for v in main + traj] + [0])
        for k, (a, b) in enumerate(zip(main, traj)):
            ctx.check(close(a, b, 1e-6, sc), 'order', lambda: 'registration order %s changes step %d: %s' % (plan['perm'], k, err(b, a)))
