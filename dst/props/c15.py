"""C15: model edits keep a valid joint tree, and refused edits change nothing."""
import random
import numpy as np
from .. import model, ref, engine, phys
from ..engine import sut, cb
from ..model import L, mat

ID = 'C15'
LEVEL = 'exploration'
TECHNIQUE = ('random histories of model edits (links, chains, joint replacements, registrations, initialisations, steps) mixed with calls that must be refused, compared '
             'after each call with a plain tree model, and with an object-by-object snapshot after a refusal')
NOTE = ('Sampled histories. There is no concurrency or I/O here: the simulator decides the order of the calls and where a faulty call strikes (which link of a chain, before or '
        'after an initialisation).')
RUNS_QUICK = 8000
RUNS_THOROUGH = 60000
RULE = 'one run = one world and a history of 5 to 25 calls; non-trivial when at least one replacement succeeded and one call was refused; distinct by event-log digest'
STATES = 'tuples (operation, kind of fault, outcome, initialised or not, number of bodies)'
REAL = ['arboris.core', 'arboris.joints']
STUB = ['parse target', 'user constraints, controllers (scripted)']
ASSUMPTIONS = ['links are added to bodies which are in the world (as documented)', 'asserts are enabled', 'the objects handed in are not changed behind the world by the user']
BAD_LINK = ['child-used', 'child-ground', 'child-dup', 'child-parent', 'joint-used', 'joint-dup', 'type-joint', 'type-f0', 'type-f1', 'nargs', 'self-loop', 'new-loop']
BAD_REPL = ['used-joint', 'noargs', 'two-args', 'wrong-end', 'wrong-start', 'mid-used', 'mid-ground', 'loop', 'dup-joint', 'not-in-world', 'type-joint', 'type-frame', 'replaced']
BAD_REG = ['joint', 'object', 'none', 'shape-frame', 'child-object']
PROBES = (['link', 'link-chain', 'replace', 'replace-chain', 'replace-frames', 'register', 'register-again', 'init', 'steps', 'setvel', 'parse', 'reuse-joint', 'carried'] +
          ['refused:link-' + b for b in BAD_LINK] + ['refused:replace-' + b for b in BAD_REPL] + ['refused:register-' + b for b in BAD_REG])
RUN_TIMEOUT = 120


def gen_link(r):
    return dict(kind=r.choice(model.JOINTS_ALL), who=r.randint(0, 99), f0=r.choice(['body', 'new', 'new', 'old', 'moving']), f1=r.choice(['body', 'new']),
                H0=L(model.rnd_H(r)), H1=L(model.rnd_H(r)), mass=L(model.rnd_mass6(r)) if r.random() < .8 else None,
                q=r.randint(0, 10 ** 6))


def generate(r, tier):
    ops = []
    for k in range(r.randint(5, 25)):
        u = r.random()
        if k == 0 or u < .27:
            op = dict(op='link', links=[gen_link(r) for _ in range(r.choice([1, 1, 2, 3]))], bad=r.choice(BAD_LINK) if r.random() < .4 else None,
                      at=r.randint(0, 2), reuse=r.random() < .3)
            op['chain'] = r.random() < .6
        elif u < .55:
            op = dict(op='replace', who=r.randint(0, 99), how=r.choice(['single', 'single', 'frames', 'chain', 'chain']), links=[gen_link(r) for _ in range(3)],
                      n=r.randint(2, 3), bad=r.choice(BAD_REPL) if r.random() < .5 else None, reuse=r.random() < .2, pick=r.randint(0, 99))
        elif u < .7:
            op = dict(op='register', what=r.choice(['frame', 'moving', 'sphere', 'point', 'box', 'plane', 'body', 'user', 'ball', 'contact', 'limits', 'ctl', 'pd', 'weight']), who=r.randint(0, 99),
                      bad=r.choice(BAD_REG) if r.random() < .25 else None, again=r.random() < .4, H=L(model.rnd_H(r)), fresh=r.random() < .5, who2=r.randint(0, 99))
        elif u < .8:
            op = dict(op='init', twice=r.random() < .2)
        elif u < .88:
            op = dict(op='setvel', who=r.randint(0, 99), x=r.randint(0, 10 ** 6), whole=r.random() < .3)
        elif u < .94:
            op = dict(op='steps', n=r.randint(1, 2))
        else:
            op = dict(op='parse')
        ops.append(op)
    return dict(ops=ops, names=r.choice(['all', 'all', 'none', 'some', 'some']))


def summary(p):
    return [o['op'] + (':' + o['bad'] if o.get('bad') else '') for o in p['ops']]


class Tree:
    """the model: who hangs where"""

    def __init__(self):
        self.children = {'g': []}       # body -> joints, in order
        self.parent = {}                # body -> joint
        self.ends = {}                  # joint -> (f0, f1) frame keys, or absent


class Bench:
    def __init__(self, plan, ctx):
        from arboris import core
        self.core, self.plan, self.ctx = core, plan, ctx
        self.w = core.World()
        self.t = Tree()
        self.body = {'g': self.w.ground}
        self.joint, self.jkind = {}, {}
        self.frame = {'g': self.w.ground}       # key -> Frame (bodies have their own key)
        self.fbody = {'g': 'g'}
        self.fH = {'g': np.eye(4)}
        self.spec = {}                          # body -> mass
        self.mass = {'g': None}
        self.reg = dict(sub=[], shape=[], con=[], ctl=[])      # registered objects, in order
        self.free = []                          # joints which were replaced
        self.live = False                       # initialised since the last edit
        self.n = 0
        self.nrefused = self.nrepl = 0
        self.spare = []
        self.blown = False
        self.nsub = 0

    # -- building
    def new_body(self, s):
        self.n += 1
        k = 'b%d' % self.n
        self.body[k] = self.core.Body(name=self.name(k), mass=mat(s['mass']))
        self.mass[k] = mat(s['mass'])
        self.frame[k], self.fbody[k], self.fH[k] = self.body[k], k, np.eye(4)
        return k

    def name(self, k):
        """names need not be given, nor be different"""
        m = self.plan['names']
        return k if m == 'all' else None if m == 'none' or self.n % 3 == 0 else 'same' if self.n % 3 == 1 else k

    def new_frame(self, b, H, moving=False):
        self.n += 1
        k = 'f%d' % self.n
        self.frame[k] = (self.core.MovingSubFrame if moving else self.core.SubFrame)(self.body[b], mat(H), name=self.name(k))
        self.fbody[k], self.fH[k] = b, mat(H)
        return k

    def new_joint(self, s):
        from arboris import joints as J
        r = random.Random(s['q'])
        self.n += 1
        k = 'j%d' % self.n
        kind = s['kind']
        cls = getattr(J, kind + 'Joint')
        if kind == 'Fixed':
            j = cls(name=self.name(k))
        else:
            j = cls(gpos=mat(model.rnd_q(r, kind)), gvel=mat(model.rnd_v(r, kind)), name=self.name(k))
        self.joint[k], self.jkind[k] = j, kind
        return k

    def world_bodies(self):
        out, st = [], ['g']
        while st:
            b = st.pop(0)
            out.append(b)
            st = [self.fbody[self.t.ends[j][1]] for j in self.t.children[b]] + st
        return out

    def world_joints(self):
        out = []

        def rec(b):
            for j in self.t.children[b]:
                out.append(j)
                rec(self.fbody[self.t.ends[j][1]])
        rec('g')
        return out

    def pick(self, seq, n):
        return seq[n % len(seq)]

    def parent_frame(self, s, b):
        if s['f0'] == 'body':
            return b
        if s['f0'] == 'old':
            c = [f for f in self.fbody if self.fbody[f] == b and self.fH[f] is not None]
            return self.pick(c, s['who'])
        if s['f0'] == 'moving':
            return self.new_frame(b, s['H0'], True)
        return self.new_frame(b, s['H0'])

    def child_frame(self, s, b):
        return b if s['f1'] == 'body' else self.new_frame(b, s['H1'])

    # -- model of the effects
    def reg_frame(self, f):
        if f not in self.body and f not in self.reg['sub']:
            self.reg['sub'].append(f)

    def attach(self, f0, j, f1):
        b0, b1 = self.fbody[f0], self.fbody[f1]
        self.t.children.setdefault(b1, [])
        self.t.children[b0].append(j)
        self.t.parent[b1] = j
        self.t.ends[j] = (f0, f1)
        self.reg_frame(f0)
        self.reg_frame(f1)
        if j in self.free:
            self.free.remove(j)
            self.ctx.count('reuse-joint')

    def args(self, links):
        out = []
        for f0, j, f1 in links:
            out += [self.frame[f0], self.joint[j], self.frame[f1]]
        return out

    # -- operations
    def link(self, op):
        bodies = self.world_bodies()
        links, prev, joints = [], None, []
        for i, s in enumerate(op['links']):
            p = prev if prev is not None and op['chain'] else self.pick(bodies, s['who'])
            f0 = self.parent_frame(s, p)
            nb = self.new_body(s)
            f1 = self.child_frame(s, nb)
            j = self.free[0] if op['reuse'] and self.free and i == 0 else self.new_joint(s)
            links.append((f0, j, f1))
            prev = nb
        a = self.args(links)
        bad = op['bad']
        if bad:
            k = op['at'] % len(links)
            used = self.world_joints()
            wb = [b for b in bodies if b != 'g']
            if bad == 'child-used':
                if not wb:
                    return
                a[3 * k + 2] = self.frame[self.child_frame(op['links'][k], self.pick(wb, op['at'] + op['links'][k]['who']))]
            elif bad == 'child-ground':
                a[3 * k + 2] = self.w.ground if op['reuse'] else self.core.SubFrame(self.w.ground)
            elif bad == 'child-dup':
                if len(links) < 2:
                    return
                k = max(k, 1)
                a[3 * k + 2] = a[3 * (k - 1) + 2]
            elif bad == 'child-parent':
                a[3 * k + 2] = a[3 * k]                 # a body linked to itself
            elif bad == 'self-loop':
                nb = self.core.Body()
                a[3 * k], a[3 * k + 2] = self.core.SubFrame(nb), nb
            elif bad == 'new-loop':
                # new bodies linked to one another only
                nb = [self.core.Body() for _ in range(2 + op['at'] % 2)]
                fr = [self.core.SubFrame(b) if op['reuse'] else b for b in nb]
                new = []
                for i, b in enumerate(nb):
                    new += [fr[i], self.joint[self.new_joint(op['links'][k])], nb[(i + 1) % len(nb)]]
                a = a + new if op['chain'] else new + a
            elif bad == 'joint-used':
                if not used:
                    return
                a[3 * k + 1] = self.joint[self.pick(used, op['at'])]
            elif bad == 'joint-dup':
                if len(links) < 2:
                    return
                k = max(k, 1)
                a[3 * k + 1] = a[3 * (k - 1) + 1]
            elif bad == 'type-joint':
                a[3 * k + 1] = [None, 'joint', self.core.Body(), self.joint[links[k][1]].__class__][op['at'] + (op['links'][k]['who'] & 1)]
            elif bad == 'type-f0':
                a[3 * k] = [None, 'ground', self.w][op['at']]
            elif bad == 'type-f1':
                a[3 * k + 2] = [None, np.eye(4), self.w][op['at']]
            elif bad == 'nargs':
                a = a[:-1] if op['reuse'] else a[:-2] if len(links) > 1 else a + a[:1]
            self.refused('link-' + bad, lambda: self.w.add_link(*a))
            return
        with sut(self.ctx, 'add_link'):
            self.w.add_link(*a)
        for l in links:
            self.attach(*l)
        self.live = False
        self.ctx.count('link-chain' if len(links) > 1 else 'link')

    def replace(self, op):
        used = self.world_joints()
        if not used:
            return
        old = self.pick(used, op['who'])
        f0, f1 = self.t.ends[old]
        b0, b1 = self.fbody[f0], self.fbody[f1]
        L_ = op['links']
        n = 1 if op['how'] != 'chain' else op['n']
        links, p = [], None
        for i in range(n):
            s = L_[i]
            g0 = f0 if i == 0 and op['how'] != 'frames' else self.parent_frame(s, b0 if i == 0 else p)
            if i == n - 1:
                g1 = f1 if op['how'] != 'frames' else self.child_frame(s, b1)
            else:
                p = self.new_body(s)
                g1 = self.child_frame(s, p)
            j = self.free[0] if op['reuse'] and self.free and i == 0 else self.new_joint(s)
            links.append((g0, j, g1))
        a = self.args(links)
        o = self.joint[old]
        call = lambda: self.w.replace_joint(o, *(a if op['how'] != 'single' else a[1:2]))
        bad = op['bad']
        if bad:
            wb = [b for b in self.world_bodies() if b not in ('g', b0, b1)]
            desc = [b for b in wb if self.below(b, b1)]
            k = op['pick'] % n
            if bad == 'used-joint':
                c = [j for j in used if j != old]
                if not c:
                    return
                a[3 * k + 1] = self.joint[self.pick(c, op['pick'])]
            elif bad == 'noargs':
                call = lambda: self.w.replace_joint(o)
            elif bad == 'two-args':
                m = op['pick'] % 3
                call = lambda: self.w.replace_joint(o, *(a[:2] if m == 0 else a + a[:1] if m == 1 else a + a[:2]))
            elif bad == 'wrong-end':
                c = [b for b in self.world_bodies() if b != b1]
                a[-1] = self.body[self.pick(c, op['pick'])] if op['reuse'] else self.core.Body()
                call = lambda: self.w.replace_joint(o, *a)
            elif bad == 'wrong-start':
                c = [b for b in self.world_bodies() if b != b0]
                a[0] = self.body[self.pick(c, op['pick'])]
                call = lambda: self.w.replace_joint(o, *a)
            elif bad in ('mid-used', 'mid-ground', 'loop', 'dup-joint'):
                if n < 2:
                    return
                call = lambda: self.w.replace_joint(o, *a)
                k = min(k, n - 2)
                if bad == 'mid-used':
                    if not wb:
                        return
                    x = self.body[self.pick(wb, op['pick'])]
                    a[3 * k + 2], a[3 * k + 3] = x, x
                elif bad == 'mid-ground':
                    a[3 * k + 2], a[3 * k + 3] = self.w.ground, self.w.ground
                elif bad == 'loop':
                    # the end of the chain hangs below the body it carries
                    x = self.pick(desc + [b1], op['pick'])
                    a[3 * n - 3] = self.body[x] if op['reuse'] else self.core.SubFrame(self.body[x])
                else:
                    a[3 * k + 4] = a[3 * k + 1]
            elif bad == 'not-in-world':
                z = self.joint[self.new_joint(L_[0])]
                call = lambda: self.w.replace_joint(z, *a[1:2])
            elif bad == 'replaced':
                if not self.free:
                    return
                z = self.joint[self.pick(self.free, op['pick'])]
                call = lambda: self.w.replace_joint(z, *a[1:2])
            elif bad == 'type-joint':
                a[3 * k + 1] = [None, 'x', self.core.Body(), 3][op['pick'] % 4]
            elif bad == 'type-frame':
                a[3 * k + 2 * (op['pick'] & 1)] = [None, 'x', self.w, self.joint[old]][op['pick'] % 4]
                call = lambda: self.w.replace_joint(o, *a)
            self.refused('replace-' + bad, call)
            return
        vel = self.velocities()
        with sut(self.ctx, 'replace_joint'):
            call()
        # model
        i = self.t.children[b0].index(old)
        after = self.t.children[b0][i + 1:]
        del self.t.children[b0][i:]
        del self.t.ends[old], self.t.parent[b1]
        for l in links:
            self.attach(*l)
        self.t.children[b0] += after
        self.free.append(old)
        self.live = True
        self.nrepl += 1
        ck = self.ctx.check
        o = self.joint[old]
        ck(o.frame0 is None and o.frame1 is None, 'replaced-joint', 'the replaced joint %s is still attached' % old)
        vel.pop(old)
        self.carried(vel, 'replace_joint')
        self.ctx.count({'single': 'replace', 'frames': 'replace-frames', 'chain': 'replace-chain'}[op['how']])

    def below(self, b, top):
        while b != 'g':
            if b == top:
                return True
            b = self.fbody[self.t.ends[self.t.parent[b]][0]]
        return top == 'g'

    def register(self, op):
        core, w = self.core, self.w
        from arboris import shapes as S, controllers as C
        from arboris import constraints as CS
        b = self.pick(self.world_bodies(), op['who'])
        bench = self
        if op['bad']:
            x = {'joint': lambda: self.joint[self.pick(sorted(self.joint), op['who'])] if self.joint else None,
                 'object': lambda: [object(), 'frame', np.eye(4), core.World(), core.Frame][op['who'] % 5], 'none': lambda: None}
            if op['bad'] == 'shape-frame':
                o = S.Sphere(self.body[b], .1)
                o.frame = [None, 'x', w][op['who'] % 3]
            elif op['bad'] == 'child-object':
                o = self.user_constraint()
                if not self.spoil(o, [None] if op['who'] % 2 else [object()]):
                    return
            else:
                o = x[op['bad']]()
            self.refused('register-' + op['bad'], lambda: w.register(o))
            return
        what = op['what']
        kind, new, more = None, None, []
        if op['again'] and any(self.reg.values()):
            kind = self.pick([k for k in sorted(self.reg) if self.reg[k]], op['who'])
            new = self.pick(self.reg[kind], op['who2'])
            o = self.frame[new] if kind == 'sub' else new
            self.ctx.count('register-again')
            with sut(self.ctx, 'register again'):
                w.register(o)
            return
        f = b if not op['fresh'] else self.new_frame(b, op['H'], op['who2'] % 2)
        fr = self.frame[f]
        if what in ('frame', 'moving'):
            f = self.new_frame(b, op['H'], what == 'moving')
            o = self.frame[f]
            more = [f]
        elif what in ('sphere', 'point', 'box', 'plane'):
            o = {'sphere': lambda: S.Sphere(fr, .1), 'point': lambda: S.Point(fr), 'box': lambda: S.Box(fr, (.1, .1, .1)), 'plane': lambda: S.Plane(fr, (0., 1., 0., 0.))}[what]()
            kind, more = 'shape', [f]
        elif what == 'body':
            o = self.body[b]
        elif what == 'user':
            o, kind = self.user_constraint(), 'con'
        elif what == 'ball':
            b2 = self.pick(self.world_bodies(), op['who2'])
            if b2 == b:
                return
            f2 = self.new_frame(b2, op['H'])
            o, kind, more = CS.BallAndSocketConstraint(frames=(fr, self.frame[f2])), 'con', []
        elif what == 'contact':
            b2 = self.pick(self.world_bodies(), op['who2'])
            if b2 == b:
                return
            f2 = self.new_frame(b2, op['H'])
            sh = S.Sphere(fr, .1), S.Sphere(self.frame[f2], .1)
            if op['who'] % 2:
                for x, k in zip(sh, (f, f2)):
                    with sut(self.ctx, 'register shape'):
                        w.register(x)
                    self.reg['shape'].append(x)
                    self.reg_frame(k)
            o, kind = CS.SoftFingerContact(sh, .5), 'con'
        elif what == 'limits':
            return
        elif what == 'weight':
            o, kind = C.WeightController(), 'ctl'
        elif what in ('ctl', 'pd'):
            class Ctl(core.Controller):
                def init(self, world):
                    self.n = world.ndof

                def update(self, dt):
                    return np.zeros(self.n), np.zeros((self.n, self.n))
            o, kind = Ctl(), 'ctl'
        with sut(self.ctx, 'register ' + what):
            w.register(o)
        for f in more:
            self.reg_frame(f)
        if kind:
            self.reg[kind].append(o)
        self.ctx.count('register')
        if kind in ('con', 'ctl'):
            self.live = False
        if what == 'contact':
            # the frames of the contact are the code's own: one on each body
            new = [x for x in w.itersubframes() if not any(x is y for y in self.frame.values())]
            self.ctx.check(sorted(id(x.body) for x in new) == sorted((id(self.body[b]), id(self.body[b2]))), 'contact-frames',
                           'registering a contact adds frames on %s' % [x.body.name for x in new])
            for x in new:
                self.own(x)

    def own(self, x):
        self.n += 1
        k = 'o%d' % self.n
        self.frame[k] = x
        self.fbody[k] = [i for i, o in self.body.items() if o is x.body][0]
        self.fH[k] = None
        self.reg_frame(k)

    def spoil(self, o, objs):
        """the objects that a constraint brings along are not what they should be"""
        if not hasattr(o, '_child_obj_to_reg'):
            return False
        o._child_obj_to_reg = objs
        return True

    def user_constraint(self):
        core = self.core

        class Con(core.Constraint):
            ndol = 1

            def __init__(self):
                core.Constraint.__init__(self)

            def init(self, world):
                self.n = world.ndof

            @property
            def jacobian(self):
                return np.zeros((1, self.n))

            def update(self, dt):
                pass

            def is_active(self):
                return False

            def solve(self, vel, admittance, dt):
                return np.zeros(1)
        return Con()

    # -- refused calls
    def snapshot(self):
        w = self.w
        s = {}
        for k, b in self.body.items():
            s['body ' + k] = (id(b.parentjoint), tuple(id(j) for j in b.childrenjoints), b.mass.tobytes(), id(b.mass))
        for k, j in self.joint.items():
            s['joint ' + k] = (id(getattr(j, '_frame0', None)), id(getattr(j, '_frame1', None)), str(getattr(j, '_dof', None)), np.asarray(j.gpos).tobytes(), np.asarray(j.gvel).tobytes(), id(j.frame0), id(j.frame1))
        for k, f in self.frame.items():
            s['frame ' + k] = (id(f.body), np.asarray(f.bpose).tobytes())
        s['iterators'] = tuple(tuple(id(o) for o in it()) for it in (w.iterbodies, w.itersubframes, w.iterjoints, w.itershapes, w.iterconstraints, w.getcontrollers))
        s['dofs'] = (w.ndof, w.gvel.tobytes(), w.mass.tobytes(), w.viscosity.tobytes(), w.nleffects.tobytes(), w.gforce.tobytes(), w.current_time)
        return s

    def refused(self, what, call):
        a = self.snapshot()
        stray = []
        try:
            call()
        except engine.StepBudget:
            raise
        except Exception as e:
            self.ctx.log('refused', what, type(e).__name__)
        else:
            self.ctx.fail('not-refused', '%s: the call was accepted' % what)
        with sut(self.ctx, 'reading the world after a refused call (%s)' % what):
            z = self.snapshot()
        for k in a:
            self.ctx.check(a[k] == z[k], 'changed-by-refusal', '%s: %s is changed by the refused call' % (what, k))
        self.ctx.count('refused:' + what)
        self.nrefused += 1

    # -- others
    def velocities(self):
        return {j: np.array(self.joint[j].gvel, copy=True) for j in self.world_joints()}

    def carried(self, vel, what):
        with sut(self.ctx, 'reading gvel'):
            g = self.w.gvel
        for j, v in vel.items():
            o = self.joint[j]
            self.ctx.check(np.array_equal(o.gvel, v), 'velocity', '%s: velocity of joint %s was %s, it is %s' % (what, j, v, o.gvel))
            self.ctx.check(np.array_equal(g[o.dof], v), 'velocity', '%s: velocity of joint %s was %s, the world has %s' % (what, j, v, g[o.dof]))
        self.ctx.count('carried')

    def init(self, op):
        vel = self.velocities()
        for _ in range(2 if op['twice'] else 1):
            with sut(self.ctx, 'init'):
                self.w.init()
        self.live = True
        self.carried(vel, 'init')
        self.ctx.count('init')

    def setvel(self, op):
        r = random.Random(op['x'])
        js = [j for j in self.world_joints() if self.jkind[j] != 'Fixed']
        if not js:
            return
        j = self.pick(js, op['who'])
        v = np.array([r.uniform(-2, 2) for _ in range(len(self.joint[j].gvel))])
        if op['whole']:
            self.joint[j].gvel = v.copy()
            if self.live:
                self.live = False
        else:
            self.joint[j].gvel[:] = v
            if self.live:
                self.carried({j: v}, 'set gvel')
        self.ctx.count('setvel')

    def steps(self, op):
        if not self.live:
            self.init(dict(twice=False))
        w = self.w
        if w.ndof == 0 or not np.all(np.isfinite(w.gvel)):
            return
        with sut(self.ctx, 'update_dynamic'):
            w.update_dynamic()
        if not np.linalg.cond(w.mass) < 1e8 or np.abs(w.gvel).max() > 20:
            return
        for _ in range(op['n']):
            with sut(self.ctx, 'step'):
                w.update_dynamic()
                w.update_controllers(1e-3)
                w.integrate(1e-3)
        self.ctx.steps += op['n']
        self.ctx.count('steps')

    def parse(self, op=None):
        bench, ctx, core = self, self.ctx, self.core
        ev = []

        class Target:
            def init_parse(self, ground, up, current_time):
                ev.append(('init', ground, None, None))

            def add_link(self, f0, j, f1):
                ev.append(('link', f0, j, f1))

            def register(self, obj):
                ev.append(('reg', obj, None, None))
        with sut(ctx, 'parse'):
            self.w.parse(Target())
        ck = ctx.check
        ck(ev and ev[0][0] == 'init' and ev[0][1] is self.w.ground, 'parse-init', 'parse does not begin with the ground')
        ck(sum(e[0] == 'init' for e in ev) == 1, 'parse-init', 'parse begins several times')
        js = [e for e in ev if e[0] == 'link']
        want = self.world_joints()
        ck(len(js) == len(want) and all(e[2] is self.joint[j] for e, j in zip(js, want)), 'parse-joints', lambda: 'parse presents the joints %s instead of %s' % ([e[2].name for e in js], want))
        for e, j in zip(js, want):
            f0, f1 = self.t.ends[j]
            ck(e[1] is self.frame[f0] and e[3] is self.frame[f1], 'parse-frames', 'parse presents joint %s with other frames' % j)
        regs = [e[1] for e in ev if e[0] == 'reg']
        allobj = [('body ' + b, self.body[b]) for b in self.world_bodies()] + [('frame ' + f, self.frame[f]) for f in self.reg['sub']]
        for k in ('shape', 'con', 'ctl'):
            allobj += [(k, o) for o in self.reg[k]]
        for n, o in allobj:
            c = sum(x is o for x in regs)
            ck(c == 1, 'parse-once', 'parse presents %s %d times' % (n, c))
        ck(len(regs) == len(allobj), 'parse-extra', 'parse presents %d objects, the world has %d' % (len(regs), len(allobj)))
        # what an object hangs on comes first
        seen = set()
        for e in ev:
            if e[0] == 'link':
                ck(id(e[1].body) in seen, 'parse-order', 'a link is presented before the body it starts from')
            elif e[0] == 'reg':
                o = e[1]
                if isinstance(o, core.Shape):
                    ck(id(o.frame) in seen, 'parse-order', 'a shape is presented before its frame')
                elif isinstance(o, (core.SubFrame, core.MovingSubFrame)):
                    ck(id(o.body) in seen, 'parse-order', 'a frame is presented before its body')
                seen.add(id(o))
        self.ctx.count('parse')

    # -- the invariant
    def check(self, what):
        w, t, ck = self.w, self.t, self.ctx.check
        for b, o in self.body.items():
            p = t.parent.get(b)
            ck(o.parentjoint is (self.joint[p] if p else None), 'parent-joint', lambda: 'after %s: parent joint of body %s is %s instead of %s' % (what, b, getattr(o.parentjoint, 'name', None), p))
            c = [self.joint[j] for j in t.children.get(b, ())]
            ck(len(c) == len(o.childrenjoints) and all(x is y for x, y in zip(c, o.childrenjoints)), 'children-joints',
               lambda: 'after %s: children joints of body %s are %s instead of %s' % (what, b, [j.name for j in o.childrenjoints], t.children.get(b, ())))
        for j, o in self.joint.items():
            e = t.ends.get(j)
            f0, f1 = (self.frame[e[0]], self.frame[e[1]]) if e else (None, None)
            ck(o.frame0 is f0 and o.frame1 is f1 and o.frames[0] is f0 and o.frames[1] is f1, 'joint-frames', 'after %s: frames of joint %s are not the given ones' % (what, j))
        for get in ('getbodies', 'getframes', 'getshapes', 'getconstraints', 'getcontrollers'):
            ck(isinstance(getattr(w, get)(), list), 'iterate', 'after %s: %s() returns no list' % (what, get))
        wb = [self.body[b] for b in self.world_bodies()]
        wj = self.world_joints()
        for b in self.world_bodies():
            ab, aj, x = [], [], b
            while x in t.parent:
                aj.append(self.joint[t.parent[x]])
                x = self.fbody[t.ends[t.parent[x]][0]]
                ab.append(self.body[x])
            with sut(self.ctx, 'iterating over ancestors'):
                got = list(self.body[b].iter_ancestor_bodies()), list(self.body[b].iter_ancestor_joints())
            self.same('ancestor bodies of ' + b, what, [got[0]], ab)
            self.same('ancestor joints of ' + b, what, [got[1]], aj)
        self.same('bodies', what, [list(w.iterbodies()), list(w.getbodies())], wb)
        self.same('joints', what, [list(w.iterjoints())], [self.joint[j] for j in wj])
        subs = [self.frame[f] for f in self.reg['sub']]
        self.same('subframes', what, [list(w.itersubframes())], subs, order=False)
        self.same('frames', what, [list(w.iterframes()), list(w.getframes())], wb + subs, order=False)
        self.same('moving subframes', what, [list(w.itermovingsubframes())], [f for f in subs if isinstance(f, self.core.MovingSubFrame)], order=False)
        self.same('shapes', what, [list(w.itershapes()), list(w.getshapes())], self.reg['shape'], order=False)
        self.same('constraints', what, [list(w.iterconstraints()), list(w.getconstraints())], self.reg['con'], order=False)
        self.same('controllers', what, [list(w.getcontrollers())], self.reg['ctl'], order=False)
        if self.live:
            n = 0
            for j in wj:
                o = self.joint[j]
                ck(o.dof.start == n and o.dof.stop == n + o.ndof and o.dof.step in (None, 1), 'dof', 'after %s: dofs of joint %s are %s, expected from %d to %d' % (what, j, o.dof, n, n + o.ndof))
                n = o.dof.stop
            ck(w.ndof == n and w.gvel.shape == (n,), 'ndof', 'after %s: %d dofs for joints with %d (%s)' % (what, w.ndof, n, w.gvel.shape))
            for nm in ('mass', 'viscosity', 'nleffects'):
                ck(getattr(w, nm).shape == (n, n), 'ndof', 'after %s: %s has shape %s for %d dofs' % (what, nm, getattr(w, nm).shape, n))
            with sut(self.ctx, 'getjoints'):
                jl = w.getjoints()
            self.same('joints', what, [list(jl)], [self.joint[j] for j in wj])
            d = jl.dof
            d = list(range(d.start, d.stop)) if isinstance(d, slice) else list(d)
            ck(d == list(range(n)), 'dof', 'after %s: dofs of all joints are %s' % (what, jl.dof))
            self.subset(what, wj)
            self.motion(what, wj)
        self.ctx.sig(what, self.live, len(wb))

    def subset(self, what, wj):
        """the dofs of some of the joints, in any order, select their velocities"""
        from arboris.core import JointsList
        self.nsub += 1
        r = random.Random(self.nsub * 64 + len(wj))
        k = r.sample(wj, r.randint(0, len(wj)))
        if r.random() < .5:
            k.sort(key=wj.index)
        if k and r.random() < .3:
            a = r.randrange(len(wj))
            k = wj[a:a + r.randint(1, 3)]
        with sut(self.ctx, 'JointsList'):
            jl = JointsList([self.joint[j] for j in k])
            d = jl.dof
            got = np.array(self.w.gvel[d]) if isinstance(d, slice) or len(d) else np.zeros(0)
        want = [x for j in k for x in self.joint[j].gvel]
        self.ctx.check(np.array_equal(got, want), 'dof', lambda: 'after %s: the dofs of the joints %s are %s' % (what, k, d))
        self.ctx.check(len(jl) == len(k) and all(a is self.joint[b] for a, b in zip(jl, k)), 'iterate-joints', 'after %s: a list of joints has others' % what)

    def same(self, kind, what, lists, want, order=True):
        for l in lists:
            ok = len(l) == len(want) and (all(a is b for a, b in zip(l, want)) if order else sorted(map(id, l)) == sorted(map(id, want)))
            self.ctx.check(ok, 'iterate-' + kind.replace(' ', '-'), lambda: 'after %s: %d %s are visited, expected %d (or another order): %s instead of %s' % (
                what, len(l), kind, len(want), [getattr(x, 'name', x) for x in l], [getattr(x, 'name', x) for x in want]))

    def motion(self, what, wj):
        """the world moves as the tree of the model"""
        q, v, t = {}, {}, ref.RefTree()
        for j in wj:
            f0, f1 = self.t.ends[j]
            b0, b1 = self.fbody[f0], self.fbody[f1]
            if self.fH[f0] is None or self.fH[f1] is None:
                return
            M = np.zeros((6, 6)) if self.mass[b1] is None else self.mass[b1]
            t.add(ref.Link(b1, b0, self.jkind[j], self.fH[f0], self.fH[f1], M, None))
            q[b1], v[b1] = np.array(self.joint[j].gpos, float), np.array(self.joint[j].gvel, float)
            if not (np.all(np.isfinite(q[b1])) and np.all(np.isfinite(v[b1])) and np.abs(v[b1]).max(initial=0) < 1e3):
                return
        if not wj:
            return
        K = t.kin(q, v)
        with sut(self.ctx, 'update_dynamic after %s' % what):
            self.w.update_dynamic()
        for b in self.world_bodies():
            if b != 'g':
                H = self.body[b].pose
                self.ctx.check(phys.close(H, K.H[b], 1e-7), 'pose', lambda: 'after %s: pose of body %s: %s' % (what, b, phys.err(H, K.H[b])))
        if K.n:
            self.ctx.check(phys.close(self.w.mass, t.mass(K), 1e-7), 'mass', lambda: 'after %s: generalized mass: %s' % (what, phys.err(self.w.mass, t.mass(K))))


def execute(plan, ctx):
    engine.import_sut()
    b = Bench(plan, ctx)
    for k, op in enumerate(plan['ops']):
        nr = b.nrefused
        getattr(b, op['op'])(op)
        what = op['op'] + (':' + op['bad'] if op.get('bad') else '')
        with sut(ctx, 'reading the world after ' + what):
            b.check('%s (call %d)' % (what, k))
            b.parse()
        ctx.log(op['op'], len(b.world_bodies()), b.w.gvel, b.nrefused)
        ctx.note('%d %s%s: %d bodies' % (k, what, ' refused' if b.nrefused > nr else '', len(b.world_bodies())))
    ctx.nontrivial = b.nrefused > 0 and b.nrepl > 0
