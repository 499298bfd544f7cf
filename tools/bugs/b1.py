BUGS = {}

BUGS['C01a'] = dict(property='C01', edits=[('arboris/core.py',
"""        # Init the worldwide generalized velocity vector:
        self._gvel = zeros(self._ndof)
        for j in self.iterjoints():
            self._gvel[j.dof] = j.gvel[:]
            j.gvel = self._gvel[j.dof]
""",
"""        # Init the worldwide generalized velocity vector (when the size did
        # not change, the joints already are bound to it):
        if len(self._gvel) != self._ndof:
            self._gvel = zeros(self._ndof)
            for j in self.iterjoints():
                self._gvel[j.dof] = j.gvel[:]
                j.gvel = self._gvel[j.dof]
""")],
needs='a joint replaced by another one with the same number of dofs (or a velocity array rebound by the user) after the world was initialised',
breaks='the generalized velocity of the new joint is not the one the step uses',
demo="""
w = World()
b = box()
j = RzJoint(gvel=[1.])
w.add_link(w.ground, j, b)
w.init()
step(w, 1e-2)
n = RxJoint(gpos=[.2], gvel=[-2.])
w.replace_joint(j, n)
w.init()
step(w, 1e-2)
expect(abs(n.gvel[0] + 2.) < 1e-9 and abs(n.gpos[0] - .18) < 1e-9, 'joint %s %s' % (n.gpos, n.gvel))
""")

BUGS['C01b'] = dict(property='C01', edits=[('arboris/core.py',
"""        if self.mass[5, 5] <= 1e-10: #TODO: avoid hardcoded value
""",
"""        if self.mass[5, 5] <= 1e-1: #TODO: avoid hardcoded value
""")],
needs='a light body (less than 100 g) whose centre of mass is away from its frame, rotating and translating',
breaks='the Coriolis/centrifugal terms of light bodies miss the offset of the centre of mass',
demo="""
m = massmatrix.transport(massmatrix.box((.1, .2, .3), 0.05), Hg.transl(.3, -.2, .1))
w = World()
b = Body(mass=m)
j = FreeJoint(gvel=[1., 2., -1., .3, .2, .1])
w.add_link(w.ground, j, b)
w.init()
def mom():
    w.update_dynamic()
    Ad = Hg.iadjoint(b.pose)
    return dot(Ad.T, dot(m, j.gvel))
p0 = mom()
for i in range(200):
    step(w, 1e-3)
p1 = mom()
expect(abs(p1 - p0).max() < 3e-3 * abs(p0).max(), 'momentum of a free body went from %s to %s' % (p0, p1))
""")

BUGS['C02a'] = dict(property='C02', edits=[('arboris/core.py',
"""            child_djac[:, j.dof] += dot(Ad_cn, dJ_nr)
""",
"""            child_djac[:, j.dof] += dJ_nr
""")],
needs='a joint with several rotations whose child frame is offset or rotated in its body',
breaks='the Jacobian derivative of the child body is not the time derivative of its Jacobian',
demo="""
w = World()
b = box()
j = RzRyRxJoint(gpos=[.3, -.5, .8], gvel=[1., -2., .7])
w.add_link(w.ground, j, SubFrame(b, dot(Hg.transl(.4, .1, -.3), Hg.rotzyx(.5, .2, -.4))))
w.init()
w.update_dynamic()
dj = b.djacobian.copy()
g = j.gpos.copy()
h = 1e-6
js = []
for s in (1, -1):
    j.gpos[:] = g + s * h * j.gvel
    w.update_dynamic()
    js.append(b.jacobian.copy())
num = (js[0] - js[1]) / (2 * h)
expect(abs(num - dj).max() < 1e-6, 'djacobian %s instead of %s' % (dj, num))
""")

BUGS['C03a'] = dict(property='C03', edits=[('arboris/controllers.py',
"""        gforce = zeros(self._wndof)
        impedance = zeros((self._wndof, self._wndof))

        gpos = []
""",
"""        gforce = zeros(self._wndof)
        if self._impedance is None or dt != self._dt:
            # only depends on the gains and on the time step
            self._impedance = zeros((self._wndof, self._wndof))
            self._impedance[ix_(self._dof_map, self._dof_map)] = \\
                    -(dt*self.kp+self.kd)
            self._dt = dt

        gpos = []
"""), ('arboris/controllers.py',
"""        impedance[ix_(self._dof_map, self._dof_map)] = -(dt*self.kp+self.kd)
        return (gforce, impedance)
""",
"""        return (gforce, self._impedance)
"""), ('arboris/controllers.py',
"""        self._wndof = world.ndof
        dof_map = []
        for j in self.joints:
""",
"""        self._wndof = world.ndof
        self._impedance = None
        dof_map = []
        for j in self.joints:
""")],
needs='a PD gain changed between two steps of the same duration, without a new init',
breaks='the impedance of the controller keeps the former gains',
demo="""
w = World()
b = box()
j = RzJoint(gpos=[.5])
w.add_link(w.ground, j, b)
w.init()
c = ProportionalDerivativeController([j], kp=10., kd=1.)
w.register(c)
w.init()
for kd in (1., 5., 0.):
    c.kd[0, 0] = kd
    for i in range(3):
        q, v = j.gpos[0], j.gvel[0]
        step(w, 1. / 128)
        dt = 1. / 128
        f = -10. * (q + dt * j.gvel[0]) - kd * j.gvel[0]
        m = w.mass[0, 0]
        expect(abs(m * (j.gvel[0] - v) / dt - f) < 1e-9, 'torque %g instead of %g' % (m * (j.gvel[0] - v) / dt, f))
""")

BUGS['C03b'] = dict(property='C03', edits=[('arboris/controllers.py',
"""            g       = dot(Hg.iadjoint(b.pose), self._gravity_dtwist)
            gforce += dot(b.jacobian.T, dot(b.mass, g))
""",
"""            # the weight is applied at the center of mass
            com     = b.mass[[2, 0, 1], [4, 5, 3]]/b.mass[5, 5]
            g       = dot(b.pose[0:3, 0:3].T, self._gravity_dtwist[3:6])
            weight  = zeros(6)
            weight[0:3] = b.mass[3, 3]*array(
                (com[1]*g[2] - com[2]*g[1],
                 com[2]*g[0] - com[0]*g[2],
                 com[0]*g[1] - com[0]*g[0]))
            weight[3:6] = b.mass[3, 3]*g
            gforce += dot(b.jacobian.T, weight)
"""), ('arboris/controllers.py',
"""        self._bodies = [x for x in world.ground.iter_descendant_bodies() \\
                        if norm(x.mass>0.)]
""",
"""        self._bodies = [x for x in world.ground.iter_descendant_bodies() \\
                        if x.mass[5, 5] > 0.]
""")],
needs='a body whose centre of mass is offset with distinct x and y coordinates in the body frame, not hanging along an axis',
breaks='the moment of the weight about the body z axis is wrong',
demo="""
m = massmatrix.transport(massmatrix.box((.1, .2, .3), 2.), Hg.transl(.3, -.2, .1))
w = World()
b = Body(mass=m)
j = FreeJoint(gpos=Hg.rotzyx(.4, .7, -.3))
w.add_link(w.ground, j, b)
c = WeightController()
w.register(c)
w.init()
w.update_dynamic()
f, z = c.update(1e-3)
ref = dot(m, np.concatenate((zeros(3), dot(b.pose[0:3, 0:3].T, [0, -9.81, 0]))))
expect(abs(f - ref).max() < 1e-9, 'weight %s instead of %s' % (f, ref))
""")

BUGS['C04a'] = dict(property='C04', edits=[('arboris/constraints.py',
"""               (self._max-self._pos0<self._proximity).any()
""",
"""               (self._max-self._pos0<self._proximity).all()
""")],
needs='a joint with several dofs, only some of them near their upper limits',
breaks='the limit is not solved and the joint goes through it',
demo="""
w = World()
b = box()
j = RzRxJoint(gpos=[.5, 0.], gvel=[2., 0.])
w.add_link(w.ground, j, b)
w.register(JointLimits(j, array([-1., -1.]), array([.505, 1.])))
w.init()
for i in range(20):
    step(w, 5e-3)
expect(j.gpos[0] < .505 + 1e-6, 'joint at %s' % j.gpos)
""")

BUGS['C04b'] = dict(property='C04', edits=[('arboris/constraints.py',
"""        self._pos0 = self._joint.gpos
        self._force[:] = 0.

    def is_active(self):
        return (self._pos0-self._min<self._proximity).any() or \\
               (self._max-self._pos0<self._proximity).any()
""",
"""        pos0 = self._joint.gpos
        if self._pos0 is None or (pos0-self._min<self._proximity).any() or \\
           (self._max-pos0<self._proximity).any():
            self._pos0 = pos0.copy()
            self._near = True
        else:
            self._near = False
        self._force[:] = 0.

    def is_active(self):
        return self._near
""")],
needs='a limit first updated while its joint is far from both limits',
breaks='a limit which is nowhere near its bounds is solved and reported active on its first update',
demo="""
w = World()
b = box()
j = RzJoint(gpos=[0.], gvel=[300.])
w.add_link(w.ground, j, b)
c = JointLimits(j, -1., 1.)
w.register(c)
w.init()
step(w, 5e-3)
expect(abs(j.gvel[0] - 300.) < 1e-6, 'a joint 1 rad away from its limits was braked to %s' % j.gvel)
""")

BUGS['C05a'] = dict(property='C05', edits=[('arboris/constraints.py',
"""        dforce = -dot(pinv(admittance), vel + self._pos0/dt)
        self._force += dforce
""",
"""        dforce = -dot(pinv(admittance, 1e-3), vel + self._pos0/dt)
        self._force += dforce
""")],
needs='a mechanism much stiffer in one direction than in the others (mobility ratio above a thousand)',
breaks='the gap is left open in the stiff direction',
demo="""
w = World()
heavy, light = Body(mass=massmatrix.sphere(.2, 2000.)), Body(mass=massmatrix.sphere(.1, .1))
jh, jl = TxJoint(gvel=[1.]), TyJoint(gvel=[1.])
w.add_link(w.ground, jh, heavy, heavy, jl, light)
k = TzJoint()
w.add_link(light, k, Body(mass=massmatrix.sphere(.1, .1)))
end = k.frame1
w.register(BallAndSocketConstraint((w.ground, end)))
w.init()
for i in range(5):
    step(w, 1e-2)
w.update_dynamic()
expect(abs(end.pose[0:3, 3]).max() < 1e-6, 'centres %s apart' % end.pose[0:3, 3])
""")

BUGS['C05b'] = dict(property='C05', edits=[('arboris/constraints.py',
"""        H_01 = dot(Hg.inv(self._frames[0].pose), self._frames[1].pose)
        self._pos0 = H_01[0:3, 3]

    def is_active(self):
        return True
""",
"""        H_01 = dot(Hg.inv(self._frames[0].pose), self._frames[1].pose)
        # do not try to recover an initial gap faster than 1 m/s
        self._pos0 = H_01[0:3, 3]
        dist = norm(self._pos0)
        if dist > dt:
            self._pos0 = self._pos0*dt/dist

    def is_active(self):
        return True
""")],
needs='a gap larger than the time step in seconds (an initial error, or the constraint disabled for a while)',
breaks='the end-of-step velocity does not close the gap',
demo="""
w = World()
b = box()
j = FreeJoint(gpos=Hg.transl(.03, 0, 0))
w.add_link(w.ground, j, b)
w.register(BallAndSocketConstraint((w.ground, b)))
w.init()
step(w, 1e-2)
w.update_dynamic()
expect(abs(b.pose[0:3, 3]).max() < 1e-6, 'centres %s apart' % b.pose[0:3, 3])
""")

BUGS['C06a'] = dict(property='C06', edits=[('arboris/constraints.py',
"""        self._is_active = (sdist + dsdist*dt < self._proximity)
""",
"""        self._is_active = (sdist < self._proximity)
""")],
needs='an approach fast enough to cross the proximity band within one step',
breaks='the contact is not solved and the shapes go through each other',
demo="""
w = World()
b = Body(mass=massmatrix.sphere(.1, 1.))
w.add_link(w.ground, TyJoint(gpos=[.2], gvel=[-20.]), b)
p, s = Plane(w.ground, (0., 1., 0., 0.)), Sphere(b, .1)
w.register(p)
w.register(s)
w.register(SoftFingerContact((p, s), .5))
w.init()
for i in range(3):
    step(w, 1e-2)
    w.update_dynamic()
    expect(b.pose[1, 3] > .1 - 1e-6, 'sphere at %g' % b.pose[1, 3])
""")

BUGS['C06b'] = dict(property='C06', edits=[('arboris/constraints.py',
"""        dsdist = (dot(Hg.adjoint(H_c0c1)[5, :], self._frames[1].twist)
                  -self._frames[0].twist[5])
""",
"""        # approach speed of the two bodies
        dsdist = (dot(H_gc0[0:3, 2], dot(H_gc1[0:3, 0:3], self._frames[1].twist[3:6]))
                  -self._frames[0].twist[5])
"""), ('arboris/constraints.py',
"""        (sdist, H_gc0, H_gc1) = self._collision_solver(self._shapes)
        H_b0g = Hg.inv(self._shapes[0].frame.body.pose)
        H_b1g = Hg.inv(self._shapes[1].frame.body.pose)
        self._frames[0].bpose = dot(H_b0g, H_gc0)
        self._frames[1].bpose = dot(H_b1g, H_gc1)
        H_c0c1""",
"""        (sdist, H_gc0, H_gc1) = self._collision_solver(self._shapes)
        H_b0g = Hg.inv(self._shapes[0].frame.body.pose)
        H_b1g = Hg.inv(self._shapes[1].frame.body.pose)
        if self._sdist is None or sdist < 2*self._proximity:
            self._frames[0].bpose = dot(H_b0g, H_gc0)
            self._frames[1].bpose = dot(H_b1g, H_gc1)
        H_c0c1""")],
needs='a pair of shapes far apart which moved or rolled since the first update and approach fast enough to touch within a step',
breaks='the approach speed is evaluated at stale contact frames: a fast approach is missed',
demo="""
w = World()
b = Body(mass=massmatrix.sphere(.1, 1.))
j = FreeJoint(gpos=Hg.transl(0., 3., 0.), gvel=[0, 0, 0, 0, 0, 0.])
w.add_link(w.ground, j, b)
p, s = Plane(w.ground, (0., 1., 0., 0.)), Sphere(b, .1)
w.register(p)
w.register(s)
w.register(SoftFingerContact((p, s), .5))
w.init()
step(w, 1e-2)
j.gpos = dot(Hg.transl(0., .35, 0.), Hg.rotx(pi))
j.gvel[:] = [0, 0, 0, 0, 28., 0]
step(w, 1e-2)
w.update_dynamic()
expect(b.pose[1, 3] > .1 - 1e-6, 'sphere at %g' % b.pose[1, 3])
""")

BUGS['C07a'] = dict(property='C07', edits=[('arboris/constraints.py',
"""            zero_tan_vel     = vel.copy()
""",
"""            zero_tan_vel     = vel.copy()
            if self._mu > 0. and norm(vel_no_force[1:3]) < 1e-3:
                # regularization: do not bother about negligible slips
                zero_tan_vel[1:3] = 0.
""")],
needs='a slow slip (less than 1 mm/s over a step): resting contact under a small tangential load',
breaks='a contact strictly inside its friction bound creeps',
demo="""
w = World()
b = Body(mass=massmatrix.box((.1, .1, .1), 1.))
j = FreeJoint(gpos=Hg.transl(0., .1, 0.))
w.add_link(w.ground, j, b)
p = Plane(w.ground, (0., 1., 0., 0.))
w.register(p)
for x, z in ((.1, .1), (.1, -.1), (-.1, .1), (-.1, -.1)):
    s = Point(SubFrame(b, Hg.transl(x, -.1, z)))
    w.register(s)
    w.register(SoftFingerContact((p, s), .8))
w.register(WeightController())

class Push(Controller):
    def __init__(self):
        Controller.__init__(self)
    def init(self, world):
        self.n = world.ndof
    def update(self, dt):
        f = zeros(self.n)
        f[3] = .3
        return f, zeros((self.n, self.n))
w.register(Push())
w.init()
for i in range(300):
    step(w, 1e-3)
w.update_dynamic()
expect(abs(b.pose[0, 3]) < 1e-6, 'a box pushed with 3 percent of its weight moved by %g m' % b.pose[0, 3])
""")
