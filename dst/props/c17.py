"""C17: internal interactions never change the total momentum."""
import numpy as np
from .. import phys, ref, model, cons
from ..phys import close, err
from ..model import L

ID = 'C17'
LEVEL = 'exploration'
TECHNIQUE = ('seeded histories of floating systems of several trees with joints, PD control, limits, ball-and-sockets and contacts between their bodies, '
             'micro-steps through violent impacts, enable/disable, iteration budgets and aborted steps; momentum balance by an independent rigid-body model')
NOTE = ('Sampled histories of 2-5 bodies. The discrete balance (projection of the step on rigid motions of the whole system) is required to rounding, also when '
        'the resolution is cut short; the true momentum of the moved bodies to the discretisation error, which micro-steps make negligible. No proof of absence.')
NAMES = True
RUNS_QUICK = 3000
RUNS_THOROUGH = 40000
RULE = ('one run = one floating system (every tree hangs on a free joint) with internal constraints, PD control, weight and viscosity, irregular and micro steps, '
        'faults; non-trivial when an internal force acted; distinct by event-log digest')
STATES = 'tuples (kinds of forces acting, number of trees, impact or not, sweeps exhausted)'
REAL = ['arboris.core', 'arboris.constraints', 'arboris.collisions', 'arboris.controllers', 'arboris.joints', 'numpy']
STUB = ['timeline (scripted)', 'user actions (scripted)']
ASSUMPTIONS = ['floating point tolerance and first-order discretisation bound stated in the code']
PROBES = ['impact', 'micro-step', 'contact-force', 'ball-force', 'limit-force', 'pd', 'two-trees', 'unconverged']
RUN_TIMEOUT = 120


def generate(r, tier):
    n = r.randint(2, 8)
    kinds = r.choice([['contact'], ['ball'], ['limits', 'ball', 'contact'], ['contact', 'contact', 'ball'], ['limits', 'contact']])
    m, cs = cons.gen_scene(r, kinds, 1, 4, bmax=5, vamp=r.choice([0.5, 2., 8.]), floating=True, indep=r.choice([1e4, None]))
    base = r.choice([1e-3, 5e-3, 1e-2])
    steps = []
    for _ in range(n):
        u = r.random()
        steps.append(base * (r.uniform(0.7, 1.3) if u < 0.6 else (r.choice([1e-3, 1e-2]) if u < 0.9 else 2.)))
    jk = {b['id']: b['joint'] for b in m['bodies']}
    ev = cons.gen_con_events(r, cs, n, 0.2, m=m)
    for k in range(1, n):
        if r.random() < 0.1:
            ids = [i for i in jk if jk[i] != 'Fixed' and r.random() < 0.6]
            ev.append(dict(at=k, kind='set_state', whole=r.random() < .3, q={i: phys.rnd_state_q(r, jk[i]) for i in ids},
                           v={i: model.rnd_v(r, jk[i]) for i in ids}))
    b = r.choice([(2000, 1e-11), (2000, 1e-11), (1000, 1e-4), (2, 1e-9), (1, 1.)])
    return dict(model=m, constraints=cs, controllers=phys.gen_controllers(r, m, sym=True, user=0., weight=0.4), steps=steps,
                mode=r.choice(['manual', 'manual', 'simulate']), gs='tight', gs_iters=b[0], gs_tol=b[1], events=ev,
                faults=phys.gen_faults(r, n, r.choice([0, 0.1]), 3000), keep_going=True)


def summary(p):
    return dict(joints=[(b['joint'], b['parent']) for b in p['model']['bodies']], constraints=[c['type'] for c in p['constraints']],
                budget=(p['gs_iters'], p['gs_tol']), steps=p['steps'][:5], mode=p['mode'])


def rigid(tree, K):
    """generalized velocities of the rigid motions of the whole system about the world origin"""
    S = np.zeros((K.n, 6))
    for i, l in tree.links.items():
        if l.parent == 'g':
            # twist of the child frame of the joint
            H = K.H[i] @ l.H1
            S[K.dof[i]] = ref.Ad(ref.hinv(H))
    return S


def execute(plan, ctx):
    st = None
    hit = [0]
    up = phys.UP

    def post(s, e):
        K, dt = s.K, s.dt
        if not np.all(np.isfinite(e.gvel)) or not np.all(np.isfinite(s.F)) or not np.all(np.isfinite(s.Y)):
            ctx.check(not s.posed, 'not-finite', 'velocity is not finite after the step')
            st.stop = True
            return
        if max(np.abs(e.gvel).max(), np.abs(s.gvel).max()) > 1e4:
            ctx.count('blown-up')
            st.stop = True
            return
        tree = st.sim.tree
        S = rigid(tree, K)
        M, B = tree.mass(K), tree.visc(K)
        Fw = np.zeros(K.n)
        for rc in st.refctls.values():
            if isinstance(rc, phys.RefWeight):
                Fw = Fw + rc.force(st.sim, K, s.q, s.v, dt)[0]
            else:
                ctx.count('pd')
        Lm = 1. + max(np.linalg.norm(H[:3, 3]) for H in K.H.values())
        # each interaction by itself
        for cid, c in s.cons.items():
            g = c.gforce
            if not np.all(np.isfinite(g)):
                continue
            w = S.T @ g
            gs = 1 + np.abs(g).max() * Lm + np.abs(s.force[cid]).max(initial=0) * Lm
            ctx.check(np.abs(w).max() <= 1e-9 * gs, 'net-wrench', lambda: '%s of force %s exerts a net wrench %s on the whole system' % (st.con_spec[cid]['type'], s.force[cid], w))
            if s.active.get(cid) and np.any(s.force[cid]):
                hit[0] += 1
                ctx.count({'contact': 'contact-force', 'ball': 'ball-force', 'limits': 'limit-force'}[st.con_spec[cid]['type']])
        # discrete balance of the step
        N = s.N
        dv = e.gvel - s.gvel
        bal = S.T @ (M @ dv / dt + (N + B) @ e.gvel - Fw)
        Z = M / dt + N + B
        cz = phys.cond(Z)
        sc = (np.abs(S.T) @ (np.abs(M) @ (np.abs(e.gvel) + np.abs(s.gvel)) / dt + np.abs(s.F) + np.abs(N + B) @ np.abs(e.gvel))).max()
        gf = sum((np.abs(c.gforce) for c in s.cons.values()), np.zeros(K.n))
        ys = np.abs(s.Y) @ (np.abs(M) @ np.abs(s.gvel) / dt + np.abs(s.F) + gf) if cz < 1e9 else None
        if ys is None:
            ctx.count('ill-conditioned')
            return
        tol = 1e-13 * (np.abs(S.T) @ np.abs(Z) @ ys).max() * min(cz, 1e5) + 1e-9 * sc
        ctx.check(np.abs(bal).max() <= tol, 'discrete-balance', lambda: 'the step changes the total momentum by %s per second more than weight and viscosity do (tolerance %g)' % (bal, tol))
        # the momentum of the moved bodies
        K1 = tree.kin(e.q, e.v, False)
        P0, P1 = tree.momentum(K), tree.momentum(K1)
        ext = dt * (S.T @ (Fw - B @ e.gvel))
        mt = sum(l.mass[5, 5] for l in tree.links.values())
        Lr = Lm + max(np.linalg.norm(H[:3, 3]) for H in K1.H.values())
        tw = [np.abs(T).sum() for T in K.T.values()] + [np.abs(T).sum() for T in K1.T.values()]
        V = max(tw + [np.abs(e.gvel).sum(), np.abs(s.gvel).sum()])
        bound = 12 * mt * Lr ** 2 * (dt * V * np.abs(dv).sum() + dt * dt * V ** 3) + tol * dt + 1e-9 * mt * Lr * V
        ctx.check(np.abs(P1 - P0 - ext).max() <= bound, 'momentum', lambda: 'total momentum changed by %s beyond weight and viscosity in a step of %g (bound %g)' % (P1 - P0 - ext, dt, bound))
        if bound < 1e-3 * (1e-9 + np.abs(P0).max()):
            ctx.count('sharp-momentum-check')
        imp = bool(np.abs(dv).max() > 0.3)
        if imp:
            ctx.count('impact')
        if dt < 1e-4:
            ctx.count('micro-step')
        if not s.converged:
            ctx.count('unconverged')
        nt = sum(l.parent == 'g' for l in tree.links.values())
        if nt > 1:
            ctx.count('two-trees')
        ctx.sig(tuple(sorted((st.con_spec[c]['type'], bool(np.any(s.force[c]))) for c in s.cons)), nt, imp, s.converged)

    st = cons.ConStepper(plan, ctx, None, post)
    st.run()
    ctx.nontrivial = hit[0] > 0
