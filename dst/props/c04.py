"""C04: joint limits hold and push only inwards."""
import numpy as np
from .. import phys, ref, model, cons
from ..phys import close, err

ID = 'C04'
LEVEL = 'exploration'
TECHNIQUE = ('seeded histories of trees with joint limits next to other constraints, enabled, disabled and aborted mid-resolution; '
             'complementarity and end-of-step position checked at every step')
NOTE = ('Sampled histories of small trees with 1-3 constraints; the resolution is run to 1e-11 in most runs (documented parameters of '
        'update_constraints) and with its defaults through simulate in the others, with a correspondingly wider tolerance; '
        'steps whose resolution did not converge within the budget are only checked for the sign of the force. No proof of absence.')
NAMES = True
RUNS_QUICK = 4000
RUNS_THOROUGH = 40000
RULE = ('one run = one random tree with 1-3 constraints, at least one a joint limit (positions inside, in the band of, on, just outside of and beyond '
        'the limits, zero-width ranges, one to three dofs), controllers, irregular steps, enable/disable events and aborted steps; '
        'non-trivial when some limit force was non-zero; distinct by the digest of the full event log')
STATES = 'tuples (joint type, per-dof side and force state, number of other active constraints, enabled)'
REAL = ['arboris.constraints', 'arboris.core', 'arboris.controllers', 'arboris.joints', 'arboris.collisions', 'numpy']
STUB = ['timeline (scripted steps)', 'user actions (scripted)']
ASSUMPTIONS = ['floating point and solver tolerance as stated in the note']
PROBES = ['limit-force-min', 'limit-force-max', 'limit-two-dofs', 'limit-beyond-start']


def generate(r, tier):
    kinds = r.choice([['limits'], ['limits', 'limits', 'ball'], ['limits', 'limits', 'contact'], ['limits', 'ball', 'contact']])
    jts = r.choice([None, ['RzRyRx', 'RzRy', 'RzRx', 'RyRx', 'TxTyTz', 'Free'], model.JOINTS_LIN])
    while True:
        m, cs = cons.gen_scene(r, kinds, 1, 3, joints=jts, vamp=r.choice([0.5, 2., 6.]))
        if any(c['type'] == 'limits' for c in cs):
            break
    n = r.randint(2, 9)
    ctls = phys.gen_controllers(r, m, sym=True)
    return dict(model=m, constraints=cs, controllers=ctls, steps=cons.con_steps(r, n),
                mode=r.choice(['manual', 'manual', 'simulate']), gs='tight', gs_iters=4000, gs_tol=1e-11,
                events=cons.gen_con_events(r, cs, n, m=m), faults=phys.gen_faults(r, n, r.choice([0, 0.2]), 3000))


def summary(p):
    return dict(joints=[b['joint'] for b in p['model']['bodies']], constraints=[(c['type'], c.get('joint'), c.get('min'), c.get('max')) for c in p['constraints']],
                events=[(e['at'], e['kind'], e.get('con', e.get('frame'))) for e in p['events']], steps=p['steps'][:5], mode=p['mode'])


def execute(plan, ctx):
    st = None
    hit = [0]

    def post(s, e):
        dt = s.dt
        if not (s.cnd < 1e4 or np.all(np.isfinite(e.gvel))):
            return
        ctx.check(np.all(np.isfinite(e.gvel)), 'not-finite', 'velocity is not finite after the step')
        cnd, judged = s.cnd, s.judged
        if not s.converged and cnd < 1e4 and s.tight:
            # a resolution without conflict and with a single constraint is solved locally
            nact = sum(s.active.values())
            ctx.check(nact > 1, 'no-convergence', 'a single active constraint was not resolved in %d iterations' % s.iters)
        for cid, sp in st.con_spec.items():
            if sp['type'] != 'limits':
                continue
            f = s.force[cid]
            kind = st.sim.tree.links[sp['joint']].kind
            n = ref.NDOF[kind]
            q0, q1 = s.q[sp['joint']], e.q[sp['joint']]
            mn, mx = np.array(sp['min']), np.array(sp['max'])
            prox = np.array(sp['prox']) if sp.get('prox') else 0.01 * np.ones(n)
            K = s.K
            g = np.zeros(K.n)
            g[K.dof[sp['joint']]] = f
            fs = 1. + np.abs(f).max()
            ctx.check(close(s.cons[cid].gforce, g, 1e-9, fs), 'gforce', lambda: 'limit force acts elsewhere than on its own dofs: ' + err(s.cons[cid].gforce, g))
            if not st.enabled[cid]:
                ctx.check(not f.any(), 'disabled-force', 'disabled limit exerts %s' % f)
                continue
            near = (q0 - mn < prox - 1e-12).any() or (mx - q0 < prox - 1e-12).any()
            far = (q0 - mn > prox + 1e-12).all() and (mx - q0 > prox + 1e-12).all()
            if far:
                ctx.check(not f.any(), 'far-force', 'limit exerts %s far from its bounds' % f)
            if not near:
                continue
            tol = (dt * cons.law_tol(s, cid) if judged else 0.) + 1e-10 + 1e-12 * (np.abs(q0).max() + sum(abs(x) for x in sp['min'] + sp['max'] if np.isfinite(x)))
            for i in range(n):
                if not judged:
                    continue
                ctx.check(q1[i] >= mn[i] - tol and q1[i] <= mx[i] + tol, 'limit-violated',
                          lambda: 'dof %d of a %s joint ends the step at %.9g, outside [%.9g, %.9g] (started at %.9g, force %s, dt=%g)' % (
                              i, kind, q1[i], mn[i], mx[i], q0[i], f, dt))
                ftol = 1e-9 * fs
                if f[i] > ftol:
                    ctx.check(q1[i] <= mn[i] + tol, 'pushes-inside', lambda: 'dof %d pushed by %.6g up to %.9g, strictly inside of its lower limit %.9g' % (i, f[i], q1[i], mn[i]))
                    ctx.count('limit-force-min')
                if f[i] < -ftol:
                    ctx.check(q1[i] >= mx[i] - tol, 'pushes-inside', lambda: 'dof %d pushed by %.6g down to %.9g, strictly inside of its upper limit %.9g' % (i, f[i], q1[i], mx[i]))
                    ctx.count('limit-force-max')
            if np.any(f):
                hit[0] += 1
            if np.count_nonzero(f) >= 2:
                ctx.count('limit-two-dofs')
            if (q0 < mn).any() or (q0 > mx).any():
                ctx.count('limit-beyond-start')
            ctx.sig(kind, tuple(int(np.sign(x)) for x in f), tuple((a < 0) * 1 + (b < 0) * 2 for a, b in zip(q0 - mn, mx - q0)), sum(s.active.values()))

    st = cons.ConStepper(plan, ctx, None, post)
    st.run()
    ctx.nontrivial = hit[0] > 0
