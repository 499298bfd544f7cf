"""C06: contacts never pull and never let shapes sink into each other."""
import numpy as np
from .. import phys, ref, model, cons
from ..phys import close, err

ID = 'C06'
LEVEL = 'exploration'
TECHNIQUE = ('seeded histories of bodies in contact (every supported shape pair, several contacts at once) with enable/disable and aborted steps; '
             'unilateral contact law and true gap checked at every step with independent geometry')
NOTE = ('Sampled histories of small trees with 1-5 contacts. The gap law is required where the resolution converged '
        '(within what its last sweep still changed), and a single contact must always converge; the sign of the force and absence of force away from the band always. '
        'Box/Point is left out (documented as not implemented). No proof of absence.')
NAMES = True
RUNS_QUICK = 3500
RUNS_THOROUGH = 40000
RULE = ('one run = one random scene with 1-5 contacts (approaching, resting, slightly penetrating, separating, out of band), controllers, irregular steps, '
        'enable/disable events and aborted steps; non-trivial when a contact force was non-zero; distinct by the digest of the full event log')
STATES = 'tuples (shape pair, order, gap class, force sign, closing or separating, active constraints)'
REAL = ['arboris.constraints', 'arboris.collisions', 'arboris.shapes', 'arboris.core', 'arboris.controllers', 'arboris.joints', 'numpy']
STUB = ['timeline (scripted steps)', 'user actions (scripted)']
ASSUMPTIONS = ['floating point and solver tolerance as stated in the note']
PROBES = ['contact-closed', 'contact-open', 'contact-far', 'contact-penetrating-start']
RUN_TIMEOUT = 120


def generate(r, tier):
    n = r.randint(2, 12)
    p = {}
    if r.random() < 0.25:
        m, cs = cons.gen_multi(r)
        ctls = [dict(id='c0', type='weight', g=r.choice([-9.81, -25.]))]
    elif r.random() < 0.2:
        m, cs = cons.planar_scene(r)
        ctls = phys.gen_controllers(r, m, sym=True, user=0.)
    else:
        kinds = r.choice([['contact'], ['contact'], ['contact', 'contact', 'limits'], ['contact', 'contact', 'ball']])
        while True:
            m, cs = cons.gen_scene(r, kinds, 1, 3, vamp=r.choice([0.3, 1., 3.]))
            if any(c['type'] == 'contact' for c in cs):
                break
        ctls = phys.gen_controllers(r, m, sym=True)
    p.update(model=m, constraints=cs, controllers=ctls, steps=cons.con_steps(r, n),
             mode=r.choice(['manual', 'manual', 'manual', 'simulate']), gs='tight', gs_iters=2000, gs_tol=1e-11,
             events=cons.gen_con_events(r, cs, n, r.choice([0, 0.2]), m=m), faults=phys.gen_faults(r, n, r.choice([0, 0.1]), 3000))
    return p


def summary(p):
    sh = {s['id']: s['type'] for s in p['model']['shapes']}
    return dict(joints=[b['joint'] for b in p['model']['bodies']],
                constraints=[(c['type'], [sh[x] for x in c.get('shapes', ())], c.get('mu')) for c in p['constraints']],
                events=[(e['at'], e['kind'], e.get('con', e.get('frame'))) for e in p['events']], steps=p['steps'][:5], mode=p['mode'])


def execute(plan, ctx):
    st = None
    hit = [0]

    def post(s, e):
        dt, K = s.dt, s.K
        ok = s.judged
        fin = np.all(np.isfinite(e.gvel))
        if not fin:
            ctx.check(not ok and not s.cnd < 1e4, 'not-finite', 'velocity is not finite after the step')
            return
        K1 = st.sim.tree.kin(e.q, e.v, False)
        nact = sum(s.active.values())
        if nact == 1 and s.cnd < 1e4 and s.tight:
            ctx.check(s.converged, 'no-convergence', 'a single constraint was not resolved in %d iterations' % s.iters)
        for cid, sp in st.con_spec.items():
            if sp['type'] != 'contact':
                continue
            f = s.force[cid]
            g = s.cons[cid].gforce
            if not st.enabled[cid]:
                ctx.check(not f.any() and not g.any(), 'disabled-force', 'disabled contact exerts %s' % f)
                continue
            d, n, pa, pb, ba, bb = st.contact_ref(K, cid)
            prox = 0.02 if sp.get('prox') is None else sp['prox']
            Jn = n @ (cons.point_jac(K, bb, pa)[0] - cons.point_jac(K, ba, pa)[0])
            dd = float(Jn @ s.gvel)
            pred = d + dt * dd
            near = pred < prox
            if ambiguous(st, K, cid):
                ctx.count('ambiguous-geometry')
                continue
            if abs(pred - prox) > 1e-9:
                if not near:
                    ctx.check(not f.any() and not g.any(), 'far-force', lambda: 'contact %g apart (proximity %g) exerts %s' % (d, prox, f))
                    ctx.count('contact-far')
                    continue
                ctx.check(bool(s.active[cid]), 'not-active', lambda: 'contact with predicted gap %g (proximity %g) is not solved' % (pred, prox))
            fs = 1 + np.abs(f).max()
            ctx.check(f[3] >= -1e-9 * fs, 'adhesive', lambda: 'normal force %g pulls (gap %g)' % (f[3], d))
            J4 = st.contact_jac(K, cid, s.R[cid])[0]
            ctx.check(close(J4[3], Jn, 1e-8, 1 + np.abs(Jn).max()), 'normal', lambda: 'contact z axis is not the surface normal: ' + err(J4[3], Jn))
            gr = J4.T @ f
            ctx.check(close(g, gr, 1e-9, fs * (1 + np.abs(J4).max())), 'wrench', lambda: 'contact force is not opposite on the two bodies at the contact: ' + err(g, gr))
            pair = tuple(st.sim.shape_spec[x]['type'] for x in sp['shapes'])
            ctx.sig(pair, int(np.sign(d)) * (abs(d) > 1e-9), bool(f[3] > 0), dd < 0, nact)
            if np.any(f):
                hit[0] += 1
            if not ok:
                continue
            tol = dt * cons.law_tol(s, cid) + 1e-10 + 1e-9 * abs(d)
            gap = d + dt * float(Jn @ e.gvel)
            ctx.check(gap >= -tol, 'sinks', lambda: 'first-order end gap %.6g of a %s contact (started at %g, speed %g, force %s, dt=%g)' % (gap, pair, d, dd, f, dt))
            if f[3] > 1e-9 * fs:
                ctx.check(gap <= tol, 'pushes-apart', lambda: 'normal force %g although the shapes end %.6g apart (started at %g)' % (f[3], gap, d))
                ctx.count('contact-closed')
            else:
                ctx.count('contact-open')
            if d < -1e-9:
                ctx.count('contact-penetrating-start')
            d1 = st.contact_ref(K1, cid)[0]
            V = np.abs(e.gvel).sum()
            Lm = 1. + max([np.linalg.norm(K1.H[b][:3, 3]) for b in K1.H] + [np.linalg.norm(pa), np.linalg.norm(pb)])
            ctx.check(d1 >= min(gap, 0.) - 4 * V * V * (1 + Lm) * dt * dt - 2 * tol, 'sinks-truly',
                      lambda: 'gap %.6g at the end of the step, first-order gap %.6g (started at %g, dt=%g)' % (d1, gap, d, dt))

    st = cons.ConStepper(plan, ctx, None, post)
    st.run()
    ctx.nontrivial = hit[0] > 0


def ambiguous(st, K, cid, eps=1e-6):
    """the closest point or the normal is not unique"""
    sp = st.con_spec[cid]
    sa, sb = [st.sim.shape_spec[x] for x in sp['shapes']]
    Ha, Hb = st.fpose(K, sa['frame']), st.fpose(K, sb['frame'])
    if 'Plane' in (sa['type'], sb['type']):
        return False
    if 'Box' in (sa['type'], sb['type']):
        if sb['type'] == 'Box':
            sa, sb, Ha, Hb = sb, sa, Hb, Ha
        p = np.abs(Ha[:3, :3].T @ (Hb[:3, 3] - Ha[:3, 3]))
        m = np.sort(np.array(sa['he']) - p)
        if m[0] < -eps:
            return False                    # outside: one closest point
        if m[0] < eps:
            return bool(m[1] < eps)         # on a face, or on an edge
        return bool(m[0] > 0 and m[1] - m[0] < eps) or bool((p[np.argsort(np.array(sa['he']) - p)[:1]] < eps).any() and m[0] > 0)
    return bool(np.linalg.norm(Ha[:3, 3] - Hb[:3, 3]) < eps)
