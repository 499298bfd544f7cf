"""C08: every active constraint acts exactly once, inactive ones not at all."""
import copy
import numpy as np
from .. import phys, model, cons, engine
from ..engine import sut
from ..model import L
from ..phys import close, err

ID = 'C08'
LEVEL = 'exploration'
TECHNIQUE = ('seeded histories mixing limits, ball-and-sockets, contacts and user-defined constraints with scripted activity and laws, random iteration budgets, '
             'enable/disable, constraints raising and aborted steps; every call of the resolution is accounted for and a fresh twin world replays each step')
NOTE = ('Sampled histories. The velocity and admittance given to every solve call are compared with the documented formula for every call of the run; '
        'equality with the fresh twin is to rounding when every constraint starts cold, to solver tolerance (converged steps without contact) otherwise. No proof of absence.')
NAMES = True
RUNS_QUICK = 2800
RUNS_THOROUGH = 40000
RULE = ('one run = one scene with 1-5 constraints of mixed kinds, controllers, a random iteration budget and tolerance, scripted activity, '
        'enable/disable/re-register/overwritten-state events, faults; non-trivial when at least two solve calls were checked; distinct by event-log digest')
STATES = 'tuples (types and activity of all constraints, sweeps, budget exhausted)'
REAL = ['arboris.core', 'arboris.constraints', 'arboris.collisions', 'arboris.controllers', 'arboris.joints', 'numpy']
STUB = ['timeline (scripted)', 'user-defined constraints and controllers (scripted)']
ASSUMPTIONS = ['floating point tolerance 1e-8 on the velocities']
PROBES = ['solve-checked', 'budget-exhausted', 'early-stop', 'twin-exact', 'twin-converged', 'inactive', 'disabled', 'user-solved', 'aborted-step']
RUN_TIMEOUT = 120
BUDGETS = [(4000, 1e-11), (4000, 1e-11), (1000, 1e-4), (1, 1e-4), (2, 1e-9), (5, 1e-3), (50, 1e-6), (3, 1e3), (7, 0.)]


def generate(r, tier):
    n = r.randint(2, 8)
    kinds = r.choice([['limits', 'ball', 'contact', 'user'], ['user'], ['limits', 'user'], ['ball', 'user'], ['contact', 'user'],
                      ['limits', 'ball', 'contact'], ['contact']])
    m, cs = cons.gen_scene(r, kinds, 1, 5, vamp=r.choice([0.3, 1.]), indep=r.choice([1e4, 1e4, None]))
    r.shuffle(cs)
    ev = cons.gen_con_events(r, cs, n, 0.25, m=m)
    for k in range(1, n):
        u = r.random()
        if u < 0.1:
            ev.append(dict(at=k, kind='reregister_constraint', con=r.choice(cs)['id']))
        elif u < 0.2:
            ev.append(dict(at=k, kind='init'))
        elif u < 0.3:
            ids = [b['id'] for b in m['bodies'] if b['joint'] != 'Fixed' and r.random() < 0.6]
            jk = {b['id']: b['joint'] for b in m['bodies']}
            ev.append(dict(at=k, kind='set_state', whole=r.random() < .3, q={i: phys.rnd_state_q(r, jk[i]) for i in ids},
                           v={i: [0.3 * x for x in model.rnd_v(r, jk[i])] for i in ids}))
    fl = phys.gen_faults(r, n, r.choice([0, 0.2]), 3000)
    us = [c for c in cs if c['type'] == 'user']
    for k in range(n):
        if us and r.random() < 0.15:
            fl.append(dict(at=k, n=10 ** 9, kind='error', con=r.choice(us)['id'], where=r.choice(['update', 'solve', 'solve']),
                           count=r.choice([1, 1, 2, 5]), exc=r.choice(phys.FAULT_KINDS)))
    b = r.choice(BUDGETS)
    return dict(model=m, constraints=cs, controllers=phys.gen_controllers(r, m, sym=True), steps=cons.con_steps(r, n),
                mode=r.choice(['manual', 'manual', 'manual', 'simulate']), gs='tight', gs_iters=b[0], gs_tol=b[1], events=ev, faults=fl, keep_going=True)


def summary(p):
    return dict(joints=[b['joint'] for b in p['model']['bodies']],
                constraints=[(c['type'], c.get('law'), c.get('act'), c.get('off')) for c in p['constraints']],
                budget=(p['gs_iters'], p['gs_tol']), events=[(e['at'], e['kind'], e.get('con')) for e in p['events']],
                faults=[(f['at'], f['kind'], f.get('where')) for f in p['faults']], mode=p['mode'])


class Acc(cons.ConStepper):
    """accounts for every call of a resolution"""

    def reset_spies(self):
        cons.ConStepper.reset_spies(self)
        self.res_ = None

    def ev_reregister_constraint(self, e):
        c = self.cons.get(e['con'])
        if c is not None:
            self.w.register(c)


def execute(plan, ctx):
    tol0 = plan['gs_tol'] if plan.get('mode') != 'simulate' else 1e-4
    maxit = plan['gs_iters'] if plan.get('mode') != 'simulate' else 1000
    checked = [0]
    ncheck = [0]

    def before(cid, c):
        if st.res_ is None:
            w = st.w
            act = [i for i, x in st.cons.items() if st.enabled[i] and x.actives and x.actives[-1]]
            r = st.res_ = phys.Snap()
            r.act = act
            upd = [t for t in st.cons_trace if t[0] == 'update']
            exp = sorted(i for i in st.cons if st.enabled[i])
            ctx.check(sorted(t[1] for t in upd) == exp, 'updates', lambda: 'constraints updated before the resolution: %s; enabled ones: %s' % ([t[1] for t in upd], exp))
            for t in upd:
                ctx.check(t[2] == upd[0][2], 'update-dt', 'constraints updated with different time steps')
            r.J = {i: np.array(st.cons[i].jacobian) for i in act}
            r.G = {i: np.array(st.cons[i].gforce) for i in act}
            r.Y = w.admittance
            r.dt = upd[0][2]
            r.base = r.Y @ (w.mass @ w.gvel / r.dt + w.gforce)
            r.F = w.gforce
            r.v = r.base + r.Y @ sum([r.G[i] for i in act], np.zeros(w.ndof))
            r.n = {i: 0 for i in st.cons}
            r.scale = 1 + (np.abs(r.Y) @ (np.abs(w.mass @ w.gvel / r.dt) + np.abs(w.gforce) + sum(np.abs(g) for g in r.G.values()))).max()
            r.ok = bool(r.scale < 1e9)
            r.vprev, r.d, r.sweep = r.v.copy(), None, 0

    def on_solve(cid, c, vel, Y, dt, d):
        r = st.res_
        ctx.check(cid in r.act, 'inactive-solved', 'constraint %s is %s but was solved' % (cid, 'disabled' if not st.enabled[cid] else 'inactive'))
        ctx.check(dt == r.dt, 'solve-dt', 'solve called with dt=%r, update with %r' % (dt, r.dt))
        J = r.J[cid]
        r.n[cid] += 1
        if r.n[cid] > maxit:
            ctx.fail('over-budget', 'constraint %s solved %d times, budget %d' % (cid, r.n[cid], maxit))
        if r.ok and (r.n[cid] <= 40 or r.n[cid] % 50 == 0):
            ref = J @ r.v
            js = 1 + np.abs(J).max()
            ctx.check(close(vel, ref, 1e-8, js * r.scale), 'velocity', lambda: 'velocity given to the %dth solve of %s: ' % (r.n[cid], cid) + err(vel, ref))
            Yr = J @ r.Y @ J.T
            ctx.check(close(Y, Yr, 1e-9, 1 + np.abs(Yr).max()), 'admittance', lambda: 'admittance given to solve of %s: ' % cid + err(Y, Yr))
            ncheck[0] += 1
            ctx.count('solve-checked')
        dv = r.Y @ (J.T @ d)
        r.v = r.v + dv
        r.scale = max(r.scale, 1 + np.abs(r.v).max(), (np.abs(r.Y) @ np.abs(J.T @ d)).max())
        r.ok = r.ok and bool(r.scale < 1e9)
        r.G[cid] = r.G[cid] + J.T @ d
        # sweeps
        if r.d is None:
            r.d = {}
            r.v0 = r.v - dv
        if cid in r.d:
            r.d = {}
            r.v0 = r.v - dv
        r.d[cid] = d

    def pre(s):
        act = [c for c in st.cons if s.active.get(c)]
        r = st.last_res
        F, Z = st.ref_forces(s)
        fs = 1 + np.abs(F).max(initial=0)
        tot = F.copy()
        for cid in st.cons:
            en, c = st.enabled[cid], s.cons[cid]
            ctx.check(c.n_update == (1 if en else 0), 'updates', 'constraint %s (%s) updated %d times in one step' % (cid, 'enabled' if en else 'disabled', c.n_update))
            if not en or not s.active[cid]:
                ctx.check(c.n_solve == 0, 'inactive-solved', 'constraint %s solved %d times while %s' % (cid, c.n_solve, 'inactive' if en else 'disabled'))
                ctx.count('inactive' if en else 'disabled')
            else:
                tot = tot + c.gforce
                fs = max(fs, np.abs(c.gforce).max(initial=0))
                if st.con_spec[cid]['type'] == 'user':
                    ctx.count('user-solved')
        if not np.all(np.isfinite(s.F)):
            ctx.check(not s.posed or (r is not None and not r.ok), 'not-finite', 'force of the step is not finite')
            return
        ctx.check(close(s.F, tot, 1e-9, fs), 'gforce', lambda: 'force of the step is not controllers + one force per active constraint: ' + err(s.F, tot))
        ns = sorted(s.cons[c].n_solve for c in act)
        if act:
            ctx.check(r is not None, 'not-solved', 'no active constraint was solved')
        if act and r.ok:
            ctx.check(ns[0] >= 1, 'not-solved', 'active constraints %s solved %s times' % (act, ns))
            ctx.check(ns[0] == ns[-1], 'uneven', 'active constraints solved %s times' % ns)
            ctx.check(ns[-1] <= maxit, 'over-budget', '%d sweeps, budget %d' % (ns[-1], maxit))
            for cid in act:
                ctx.check(close(s.cons[cid].gforce, r.G[cid], 1e-8, 1 + np.abs(r.G[cid]).max() + r.fmax), 'force-increments',
                          lambda: 'force of %s is not the sum of the increments its solve returned: ' % cid + err(s.cons[cid].gforce, r.G[cid]))
            if ns[-1] < maxit:
                Jall = np.vstack([r.J[c] for c in act])
                a = np.linalg.norm(Jall @ (r.v - r.v0))
                b = np.linalg.norm(r.v - r.v0)
                ctx.check(min(a, b) <= tol0 * (1 + 1e-6) + 1e-9 * r.scale * (1 + np.abs(Jall).max()), 'stopped-early',
                          lambda: 'stopped after %d sweeps (budget %d) while the velocities still changed by %g (tolerance %g)' % (ns[-1], maxit, a, tol0))
                ctx.count('early-stop')
            else:
                ctx.count('budget-exhausted')
        ctx.sig(tuple(sorted((st.con_spec[c]['type'], st.enabled[c], bool(s.active.get(c))) for c in st.cons)), min(ns[-1] if ns else 0, 6), bool(ns and ns[-1] >= maxit))

    def post(s, e):
        if not np.all(np.isfinite(e.gvel)):
            return
        act = [c for c in st.cons if s.active.get(c)]
        exact = all((st.con_spec[c]['type'] in ('limits', 'contact')) or st.con_spec[c].get('reset') for c in act)
        types = [(st.con_spec[c]['type'], st.con_spec[c].get('law')) for c in act]
        conv = s.judged and s.cnd < 1e4 and tol0 <= 1e-9 and not any(t[0] == 'contact' or t[1] in ('const', 'restless') for t in types)
        if not (exact or conv) or not s.posed:
            return
        if checked[0] > 6:
            return
        checked[0] += 1
        g = twin(plan, st, s, ctx)
        if g is None or not np.all(np.isfinite(g)):
            return
        V = 1 + np.abs(g).max(initial=0)
        if exact:
            ctx.check(close(e.gvel, g, 1e-8, V * max(1., min(s.cnd, 1e4))), 'leftovers', lambda: 'a fresh world in the same state makes another step: ' + err(e.gvel, g))
            ctx.count('twin-exact')
        else:
            t = 1e-5 + 10 * tol0 * s.cnd
            ctx.check(close(e.gvel, g, t, V), 'leftovers', lambda: 'a fresh world in the same state makes another step (converged): ' + err(e.gvel, g))
            ctx.count('twin-converged')

    st = Acc.__new__(Acc)
    st.res_ = None
    st.last_res = None
    cons.ConStepper.__init__(st, plan, ctx, pre, post, None, on_solve)
    st.on_before = before
    take = st.take

    def take2(dt):
        st.last_res = st.res_
        if st.last_res is not None:
            st.last_res.fmax = max([np.abs(x).max() for x in st.last_res.G.values()] + [0])
        return take(dt)
    st.take = take2
    st.run()
    ctx.nontrivial = ncheck[0] >= 2


def twin(plan, st, s, ctx):
    p = copy.deepcopy({k: plan[k] for k in ('model', 'controllers', 'constraints')})
    for b in p['model']['bodies']:
        b.pop('int', None)
        if b['joint'] != 'Fixed':
            b['gpos'], b['gvel'] = L(s.q[b['id']]), L(s.v[b['id']])
        for k in ('H0', 'H1'):
            if b.get('mv' + k):
                b[k] = L(getattr(st.sim.tree.links[b['id']], k))
    for f in p['model']['frames']:
        f['H'] = L(st.sim.fH[f['id']])
    for c in p['constraints']:
        c['off'] = not st.enabled[c['id']]
        if c['type'] == 'user':
            c['act'] = [bool(s.active.get(c['id']))]
    p.update(steps=[s.dt], gs='tight', gs_iters=s.maxit, gs_tol=plan['gs_tol'] if plan.get('mode') != 'simulate' else 1e-4, mode='manual')
    c2 = engine.Ctx('twin')
    t = cons.ConStepper(p, c2)
    with sut(ctx, 'step of the fresh world', skip=st.ill_now):
        t.w.init()
        t.step_calls(s.dt)
        t.w.integrate(s.dt)
        return t.w.gvel
    return None
