"""C05: ball-and-socket constraints keep the two centres together."""
import numpy as np
from .. import phys, ref, model, cons
from ..phys import close, err

ID = 'C05'
LEVEL = 'exploration'
TECHNIQUE = ('seeded histories of trees and planar loops closed by ball-and-socket constraints, enabled, disabled and aborted mid-resolution; '
             'first-order closure, wrench and true gap checked at every step against the reference tree')
NOTE = ('Sampled histories of small mechanisms with 1-3 constraints; closure is required where the stacked constraints are independent '
        '(condition below 1e4) or, for a single constraint, where the target is reachable (planar loops); resolution to 1e-11 in most runs, '
        'with its defaults through simulate in the others. No proof of absence.')
NAMES = True
RUNS_QUICK = 3500
RUNS_THOROUGH = 40000
RULE = ('one run = one random tree or planar loop with 1-3 constraints, at least one ball-and-socket (gap zero or up to 5 mm), controllers, irregular steps, '
        'enable/disable events and aborted steps; non-trivial when a ball force was non-zero; distinct by the digest of the full event log')
STATES = 'tuples (body pair kinds, active constraints, gap magnitude, enabled transitions, rank of the admittance)'
REAL = ['arboris.constraints', 'arboris.core', 'arboris.controllers', 'arboris.joints', 'numpy']
STUB = ['timeline (scripted steps)', 'user actions (scripted)']
ASSUMPTIONS = ['floating point and solver tolerance as stated in the note']
PROBES = ['ball-closed', 'ball-singular-closed', 'ball-reenabled']


def planar(r):
    """a chain of parallel hinges and slides closed on the ground or on itself"""
    m, flat_H = cons.planar_chain(r)
    n = len(m['bodies'])
    tree = model.ref_tree(m)
    q, v = model.plan_state(m)
    K = tree.kin(q, v, False)
    a, b = ('g', 'b%d' % (n - 1)) if r.random() < .7 else ('b0', 'b%d' % (n - 1))
    # point on b, in the plane of the mechanism; gap in the plane
    P = K.H[b] @ np.append(flat_H()[:3, 3], 1.)
    R = (K.H['b0'])[:3, :3]
    g = np.zeros(3) if r.random() < .5 else R @ (flat_H()[:3, 3] * 0.005)
    m['frames'].append(dict(id='k0a', body=a, H=model.L(ref.hinv(K.H[a]) @ ref.mk(model.rnd_rot(r), P[:3] + g)), moving=False))
    m['frames'].append(dict(id='k0b', body=b, H=model.L(ref.hinv(K.H[b]) @ ref.mk(model.rnd_rot(r), P[:3])), moving=False))
    fr = ['k0a', 'k0b']
    if r.random() < .5:
        fr.reverse()
    return m, [dict(id='k0', type='ball', frames=fr, off=r.random() < .1)]


def generate(r, tier):
    n = r.randint(2, 9)
    if r.random() < 0.25:
        while True:
            m, cs = planar(r)
            if phys.tree_ok(r, model.ref_tree(m)):
                break
        ctls = phys.gen_controllers(r, m, sym=True, user=0.)
    else:
        kinds = r.choice([['ball'], ['ball'], ['limits', 'ball', 'ball'], ['ball', 'ball', 'contact'], ['limits', 'ball', 'contact']])
        while True:
            m, cs = cons.gen_scene(r, kinds, 1, 3, vamp=r.choice([0.5, 2., 5.]))
            if any(c['type'] == 'ball' for c in cs):
                break
        ctls = phys.gen_controllers(r, m, sym=True)
    return dict(model=m, constraints=cs, controllers=ctls, steps=cons.con_steps(r, n),
                mode=r.choice(['manual', 'manual', 'simulate']), gs='tight', gs_iters=4000, gs_tol=1e-11,
                events=cons.gen_con_events(r, cs, n, 0.2, m=m), faults=phys.gen_faults(r, n, r.choice([0, 0.2]), 3000))


def summary(p):
    return dict(joints=[b['joint'] for b in p['model']['bodies']], constraints=[(c['type'], c.get('frames')) for c in p['constraints']],
                events=[(e['at'], e['kind'], e.get('con', e.get('frame'))) for e in p['events']], steps=p['steps'][:5], mode=p['mode'])


def execute(plan, ctx):
    st = None
    hit = [0]
    was = {}

    def post(s, e):
        dt = s.dt
        K = s.K
        fin = np.all(np.isfinite(e.gvel))
        nact = sum(s.active.values())
        for cid, sp in st.con_spec.items():
            if sp['type'] != 'ball':
                continue
            f = s.force[cid]
            en = st.enabled[cid]
            if not en:
                ctx.check(not f.any() and not s.cons[cid].gforce.any(), 'disabled-force', 'disabled ball-and-socket exerts %s' % f)
                was[cid] = False
                continue
            ctx.check(bool(s.active[cid]), 'not-active', 'an enabled ball-and-socket was not solved')
            J, p, Wr = st.ball_jac(K, cid)
            g = J.T @ f
            if np.all(np.isfinite(f)):
                ctx.check(close(s.cons[cid].gforce, g, 1e-9, 1 + np.abs(f).max() * (1 + np.abs(J).max())), 'wrench',
                          lambda: 'ball force is not a pure force through the common point, opposite on the two bodies: ' + err(s.cons[cid].gforce, g))
            judged, c, rank = s.judged and s.cnd < 1e4, s.cnd, 3
            vmax = max([np.abs(x).max(initial=0) for x in s.v.values()] + [0])
            if nact == 1 and not judged and s.posed:
                # a single constraint: reachable targets, even through a singular admittance
                Y = J @ s.Y @ J.T
                u, sv, vt = np.linalg.svd(Y)
                rel = sv / max(sv[0], 1e-300)
                if not ((rel > 1e-13) & (rel < 1e-4)).any() and sv[0] > 1e-9:
                    rank = int((rel >= 1e-4).sum())
                    b = -(p / dt + J @ (s.Y @ (s.M @ s.gvel / dt + s.F - s.cons[cid].gforce)))
                    res = u[:, rank:].T @ b
                    judged = bool(np.abs(res).max(initial=0) < 1e-9 * (1 + np.abs(b).max())) and rank > 0
                    c = 1 / rel[rank - 1] if rank else 1.
                    if judged:
                        ctx.check(np.abs(f).max() <= 1e4 * (1 + np.abs(b).max()) / sv[rank - 1], 'force-blow-up',
                                  lambda: 'force %s on a mechanism closed by a finite force' % f)
                        ctx.check(s.judged, 'no-convergence', 'a single ball-and-socket on a closable mechanism was not resolved')
            elif nact == 1 and s.cnd < 1e4:
                ctx.check(s.converged, 'no-convergence', 'a single ball-and-socket was not resolved in %d iterations' % s.iters)
            if not judged or not s.posed:
                continue
            ctx.check(fin, 'not-finite', 'velocity is not finite after the step')
            tolv = cons.law_tol(s, cid) + 1e-9 * (np.abs(p).max() / dt + np.abs(e.gvel).max())
            r = p + dt * (J @ e.gvel)
            ctx.check(np.abs(r).max() <= dt * tolv, 'gap-not-closed',
                      lambda: 'first-order gap at the end of the step is %s (started at %s, dt=%g, force %s)' % (r, p, dt, f))
            # the true gap
            K1 = st.sim.tree.kin(e.q, e.v, False)
            p1 = st.ball_jac(K1, cid)[1]
            L = 1. + max([np.linalg.norm(K1.H[b][:3, 3]) for b in K1.H] + [0]) + max(np.linalg.norm(st.fpose(K1, x)[:3, 3]) for x in sp['frames'])
            V = np.abs(e.gvel).sum()
            bound = 4 * (V * V * (1 + L)) * dt * dt + 2 * dt * tolv + 2 * dt * V * np.linalg.norm(p)
            ctx.check(np.linalg.norm(p1) <= bound + 1e-12, 'gap-opens',
                      lambda: 'centres %g apart after a step of %g which closed the gap to first order (bound %g)' % (np.linalg.norm(p1), dt, bound))
            ctx.count('ball-closed' if rank == 3 else 'ball-singular-closed')
            if was.get(cid) is False:
                ctx.count('ball-reenabled')
            was[cid] = True
            if np.any(f):
                hit[0] += 1
            ctx.sig(tuple(st.fbody(x) == 'g' for x in sp['frames']), nact, int(np.log10(np.linalg.norm(p) + 1e-9)), rank, s.tight)

    st = cons.ConStepper(plan, ctx, None, post)
    st.run()
    ctx.nontrivial = hit[0] > 0
