BUGS = {}

BUGS['C08a'] = dict(property='C08', edits=[('arboris/core.py',
"""                vel += dot(admittance[:, c._dol], dforce)
""",
"""                # the admittance is symmetric
                vel += dot(dforce, admittance[c._dol, :])
""")],
needs='two active constraints on bodies rotating fast enough for the Coriolis terms to make the admittance non symmetric',
breaks='the constraint velocities seen by the next constraints are not the true ones',
demo="""
class Probe(Constraint):
    def __init__(self, k):
        Constraint.__init__(self)
        self._force = zeros(1)
        self.k = k
    def init(self, world):
        self.w = world
    @property
    def jacobian(self):
        J = zeros((1, self.w.ndof))
        J[0, self.k] = 1.
        return J
    @property
    def ndol(self):
        return 1
    def update(self, dt):
        self._force[:] = 0.
    def is_active(self):
        return True
    def solve(self, vel, adm, dt):
        d = -vel/adm[0, 0]
        self._force += d
        return d
w = World()
b = box()
j = FreeJoint(gvel=[3., 9., -6., 1., 0., 0.])
w.add_link(w.ground, j, b)
w.register(Probe(0))
w.register(Probe(1))
w.init()
step(w, 1e-2, 200, 1e-13)
expect(abs(j.gvel[0:2]).max() < 1e-9, 'rotation about the two blocked axes at %s' % j.gvel[0:2])
""")

BUGS['C08b'] = dict(property='C08', edits=[('arboris/core.py',
"""        gforce = self._gforce.copy()
        for c in constraints:
""",
"""        gforce = self._gforce
        for c in constraints:
"""), ],
needs='a constraint which starts a step with its previous force (ball and socket after its first step)',
breaks='the force a constraint starts from is added twice to the force of the step',
demo="""
w = World()
b = box()
j = FreeJoint(gvel=[1., 0., 2., 0., 0., 0.])
w.add_link(w.ground, j, b)
w.register(BallAndSocketConstraint((w.ground, SubFrame(b, Hg.transl(.0, .3, .0)))))
j.gpos[1, 3] = -.3
w.register(WeightController())
w.init()
for i in range(20):
    step(w, 1e-2)
w.update_dynamic()
p = dot(b.pose, [0, .3, 0, 1])[0:3]
expect(abs(p).max() < .02, 'the pendulum left its pivot by %s' % p)
""")

BUGS['C08c'] = dict(property='C08', edits=[('arboris/core.py',
"""                vel += dot(admittance[:, c._dol], dforce)
            error = numpy.linalg.norm(vel - previous_vel)
            if k > 0 and error < tol:
                break
            previous_vel = vel.copy()
""",
"""                vel += dot(admittance[:, c._dol], dforce)
                error = numpy.linalg.norm(vel[c._dol] - previous_vel[c._dol])
            if len(constraints) == 0:
                break
            if k > 0 and error < tol:
                break
            previous_vel = vel.copy()
""")],
needs='several active constraints, the last registered one settling before the others do',
breaks='the resolution stops before it has converged',
demo="""
w = World()
joints = []
f = w.ground
for i in range(4):
    j = RzJoint(gpos=[.4], gvel=[1. - i])
    b = Body(mass=massmatrix.transport(massmatrix.box((.1, .5, .1), 1.), Hg.transl(0, .5, 0)))
    w.add_link(f, j, b)
    joints.append(j)
    f = SubFrame(b, Hg.transl(0, 1., 0))
far = TxJoint(gpos=[0.])
w.add_link(w.ground, far, box())
for j in joints:
    w.register(JointLimits(j, .4, .4, proximity=1.))
w.register(JointLimits(far, -.001, 5.))
w.init()
step(w, 1e-2, 5000, 1e-12)
q = array([j.gpos[0] for j in joints])
expect(abs(q - .4).max() < 1e-9, 'locked joints moved to %s' % q)
""")

BUGS['C08d'] = dict(property='C08', edits=[('arboris/core.py',
"""            if c.is_enabled():
                c.update(dt)
                if c.is_active():
""",
"""            active = c in self._active
            if c.is_enabled():
                c.update(dt)
                active = c.is_active()
            if active:
                if True:
"""), ('arboris/core.py',
"""        for c in constraints:
            self._gforce += c.gforce

""",
"""        for c in constraints:
            self._gforce += c.gforce
        self._active = constraints

"""), ('arboris/core.py',
"""        self._gforce       = array([])
""",
"""        self._gforce       = array([])
        self._active       = []
""")],
needs='a constraint disabled between two steps while it was active',
breaks='a disabled constraint is still solved',
demo="""
w = World()
b = box()
j = FreeJoint(gpos=Hg.transl(0, -.3, 0))
w.add_link(w.ground, j, b)
c = BallAndSocketConstraint((w.ground, SubFrame(b, Hg.transl(.0, .3, .0))))
w.register(c)
w.register(WeightController())
w.init()
for i in range(5):
    step(w, 1e-2)
c.disable()
v = j.gvel[4]
for i in range(5):
    step(w, 1e-2)
expect(abs(j.gvel[4] - v + .05*9.81) < 1e-6, 'released body falls at %g' % j.gvel[4])
""")
