"""C07: contact friction stays in its cone, sticks or opposes sliding."""
import numpy as np
from .. import phys, ref, model, cons
from ..phys import close, err
from . import c06

ID = 'C07'
LEVEL = 'exploration'
TECHNIQUE = ('seeded histories of sliding, sticking, pivoting and impacting contacts; Coulomb cone, stick and maximum dissipation checked on '
             'the recorded force and the end-of-step relative velocity at every step')
NOTE = ('Sampled histories of small trees with 1-5 contacts. The cone is required of every solved contact; stick/slip where the resolution '
        'converged, within what its last sweep still changed. No proof of absence.')
NAMES = True
RUNS_QUICK = 3000
RUNS_THOROUGH = 40000
RULE = ('one run = one random scene with 1-5 soft-finger contacts (friction 0 to 1.5, tangential and pivoting velocities), controllers, irregular steps, '
        'enable/disable events and aborted steps; non-trivial when a friction force was non-zero; distinct by the digest of the full event log')
STATES = 'tuples (shape pair, friction class, stick/slip/open, pivoting, active constraints)'
REAL = c06.REAL
STUB = c06.STUB
ASSUMPTIONS = c06.ASSUMPTIONS
PROBES = ['stick', 'slip', 'open', 'frictionless']
RUN_TIMEOUT = 120


def generate(r, tier):
    n = r.randint(2, 10)
    p = {}
    if r.random() < 0.2:
        m, cs = cons.gen_multi(r)
        ctls = [dict(id='c0', type='weight', g=r.choice([-9.81, -25.]))]
    elif r.random() < 0.2:
        m, cs = cons.planar_scene(r)
        ctls = phys.gen_controllers(r, m, sym=True, user=0.)
    else:
        kinds = r.choice([['contact'], ['contact'], ['contact', 'contact', 'limits'], ['contact', 'contact', 'ball']])
        while True:
            m, cs = cons.gen_scene(r, kinds, 1, 3, vamp=r.choice([0.1, 0.6, 3.]),
                                   contact_kw=dict(gaps=[0., 0., 1e-4, 1e-3, 5e-3, -1e-4, -1e-3]))
            if any(c['type'] == 'contact' for c in cs):
                break
        ctls = phys.gen_controllers(r, m, sym=True)
        if r.random() < 0.6 and not any(c['type'] == 'weight' for c in ctls):
            ctls.append(dict(id='cw', type='weight', g=-9.81))
    p.update(model=m, constraints=cs, controllers=ctls, steps=cons.con_steps(r, n),
             mode=r.choice(['manual', 'manual', 'manual', 'simulate']), gs='tight', gs_iters=2000, gs_tol=1e-11,
             events=cons.gen_con_events(r, cs, n, r.choice([0, 0.1]), m=m), faults=phys.gen_faults(r, n, r.choice([0, 0.1]), 3000))
    return p


summary = c06.summary


def jammed(Y, alpha, mu):
    """no force closes the gap, sticks or slides according to Coulomb: friction
    cannot stop the motion which the rest of the mechanism imposes"""
    if not np.linalg.cond(Y) > 1e7:
        return False
    top = np.abs(np.diag(Y)).max()
    na = np.linalg.norm(alpha)
    f0 = None
    for x in np.linspace(6, -13, 600):
        s = -top * 10 ** x
        f = np.linalg.solve(Y - s * np.diag([1., 1., 1., 0.]), -alpha)
        if f0 is None:
            f0 = np.linalg.norm(f)
        t = np.linalg.norm(f[:3])
        if f[3] < 0 or t > mu * f[3]:
            return np.linalg.norm(f) > 1e5 * f0     # crossed the cone here
        if abs(s) * t < 1e-8 * na:
            return False                # sticking
    return True


def execute(plan, ctx):
    st = None
    hit = [0]

    def post(s, e):
        dt, K = s.dt, s.K
        if not np.all(np.isfinite(e.gvel)):
            return
        ok = s.judged
        nact = sum(s.active.values())
        if nact == 1 and s.cnd < 1e4 and s.tight:
            ctx.check(s.converged, 'no-convergence', 'a single contact was not resolved in %d iterations' % s.iters)
        for cid, sp in st.con_spec.items():
            if sp['type'] != 'contact' or not st.enabled[cid] or not s.active[cid]:
                continue
            if c06.ambiguous(st, K, cid):
                continue
            f = s.force[cid]
            mu = sp['mu']
            ft, fz = f[:3], f[3]
            t = np.linalg.norm(ft)
            fs = 1 + np.abs(f).max()
            ctx.check(t <= mu * max(fz, 0.) * (1 + 1e-6) + 1e-8 * fs, 'outside-cone',
                      lambda: 'tangential force and pivoting torque %s exceed mu=%g times the normal force %g' % (ft, mu, fz))
            if t > 0:
                hit[0] += 1
            J4 = st.contact_jac(K, cid, s.R[cid])[0]
            vt = J4[:3] @ e.gvel
            w = np.linalg.norm(vt)
            pair = tuple(st.sim.shape_spec[x]['type'] for x in sp['shapes'])
            state = 'open'
            Yb = J4 @ s.Y @ J4.T
            al = J4 @ e.gvel - Yb @ f
            al[3] += st.contact_ref(K, cid)[0] / dt
            if ok and fz > 1e-9 * fs and jammed(Yb, al, mu):
                ctx.count('jammed')
                continue
            if ok and fz > 1e-9 * fs:
                tolv = cons.law_tol(s, cid) + 1e-9 * (np.abs(J4) @ np.abs(e.gvel)).max()
                if mu == 0.:
                    state = 'frictionless'
                elif t < mu * fz * (1 - 1e-4) - 1e-7 * fs:
                    state = 'stick'
                    ctx.check(w <= 3 * tolv, 'slips-inside-cone',
                              lambda: 'contact slides or pivots at %s with a friction %.6g strictly inside of its bound %.6g' % (vt, t, mu * fz))
                elif w > 100 * tolv:
                    state = 'slip'
                    ctx.check(t >= mu * fz * (1 - 1e-4) - 1e-7 * fs, 'weak-friction', lambda: 'sliding with %.6g of friction out of %.6g' % (t, mu * fz))
                    m = np.linalg.norm(vt / w + ft / t)
                    ctx.check(m <= 1e-4 + 10 * tolv / w + 1e-6 * fs / t, 'not-opposing',
                              lambda: 'friction %s does not oppose the sliding velocity %s (mu=%g, fz=%g)' % (ft, vt, mu, fz))
                else:
                    state = 'edge'
            ctx.count(state)
            ctx.sig(pair, mu == 0, mu > .5, state, abs(vt[0]) > 1e-3, nact)

    st = cons.ConStepper(plan, ctx, None, post)
    st.run()
    ctx.nontrivial = hit[0] > 0
