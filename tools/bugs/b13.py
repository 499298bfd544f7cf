BUGS = {}

BUGS['C01c'] = dict(property='C01', edits=[('arboris/core.py',
"""        for b in self.ground.iter_descendant_bodies():
            self._mass += dot(""",
"""        # a massless body has no dynamics
        for b in [x for x in self.ground.iter_descendant_bodies() if x.mass.any()]:
            self._mass += dot(""")],
needs='a massless body with a viscosity (a damper between two links)',
breaks='The viscosity of massless bodies is ignored: the mechanism is not damped.',
demo="""
w = World()
a, b = Body(viscosity=diag([0., 0., 0., 3., 3., 3.])), box(name='b')
j = TzJoint(gvel=[2.])
w.add_link(w.ground, j, a, a, RzJoint(), b)
w.init()
step(w, .1)
# (m/dt + B) v1 = m/dt v0
expect(abs(j.gvel[0] - 10 * 2. / (10 + 3)) < 1e-9, str(j.gvel))
""")

BUGS['C02b'] = dict(property='C02', edits=[('arboris/core.py',
"""        self._frame0 = frame0
        self._frame1 = frame1
""",
"""        self._frame0 = frame0
        self._frame1 = frame1
        # the inverse pose of the child anchor does not change
        self._H_nc = None if frame1 is None else Hg.inv(frame1.bpose)
"""), ('arboris/core.py',
"""            H_pc = dot(H_pr, dot(H_rn, Hg.inv(H_cn)))
            child_pose = dot(H_gp, H_pc)
            j.frame1""",
"""            H_pc = dot(H_pr, dot(H_rn, j._H_nc))
            child_pose = dot(H_gp, H_pc)
            j.frame1""")],
needs='a link attached to its child body by a moving subframe, which is moved after the link was added, and update_geometric used without update_dynamic',
breaks='update_geometric places the child body and all what it carries where the anchor was at first.',
demo="""
w = World()
b = box()
f = MovingSubFrame(b, Hg.transl(.1, 0., 0.))
w.add_link(w.ground, RzJoint(), f)
w.init()
w.update_geometric()
expect(abs(b.pose[0, 3] + .1) < 1e-12, str(b.pose))
f.bpose = Hg.transl(.5, 0., 0.)
w.update_geometric()
expect(abs(b.pose[0, 3] + .5) < 1e-12, str(b.pose))
""")

BUGS['C03c'] = dict(property='C03', edits=[('arboris/core.py',
"""            if not obj in self._controllers:
""",
"""            # do not apply twice the same force
            if obj.name is None and not obj in self._controllers or \\
               obj.name is not None and not self.getcontrollers().find(obj.name):
""")],
needs='two controllers with the same name',
breaks='The force of the second one is lost.',
demo="""
w = World()
b = box()
j = TyJoint()
w.add_link(w.ground, j, b)
w.register(WeightController(name='w'))
w.register(WeightController(gravity=-1., name='w'))
w.init()
step(w, .1)
expect(abs(j.gvel[0] + 1.081) < 1e-9, str(j.gvel))
""")

BUGS['C05c'] = dict(property='C05', edits=[('arboris/constraints.py',
"""        self._pos0 = None
        self._frames = frames

    def init(self, world):
        pass
""",
"""        self._pos0 = None
        self._frames = frames
        self._bposes = None

    def init(self, world):
        # the centers are fixed to their bodies
        self._bposes = [f.bpose for f in self._frames]
"""), ('arboris/constraints.py',
"""        H_01 = dot(Hg.inv(self._frames[0].pose), self._frames[1].pose)
        self._pos0 = H_01[0:3, 3]
""",
"""        H_01 = dot(Hg.inv(dot(self._frames[0].body.pose, self._bposes[0])),
                   dot(self._frames[1].body.pose, self._bposes[1]))
        self._pos0 = H_01[0:3, 3]
""")],
needs='a ball and socket whose frame is moved on its body during the run (an adjustable attachment)',
breaks='The gap is measured at the former place of the frame and never closes.',
demo="""
w = World()
b = box()
w.add_link(w.ground, FreeJoint(), b)
f = MovingSubFrame(b)
w.register(f)
w.register(BallAndSocketConstraint((w.ground, f)))
w.init()
step(w, 1e-2)
f.bpose = Hg.transl(.02, 0., 0.)
for i in range(4):
    step(w, 1e-2)
w.update_dynamic()
expect(abs(f.pose[0:3, 3]).max() < 1e-6, 'centres %s apart' % f.pose[0:3, 3])
""")

BUGS['C06c'] = dict(property='C06', edits=[('arboris/constraints.py',
"""        dsdist = (dot(Hg.adjoint(H_c0c1)[5, :], self._frames[1].twist)
                  -self._frames[0].twist[5])
""",
"""        # only the twist of the second frame (relative to the ground) matters
        dsdist = dot(Hg.adjoint(H_c0c1)[5, :], self._frames[1].twist)
""")],
needs='a first shape (plane, box, sphere) carried by a body which moves fast towards the second one',
breaks='The approach is not seen: the shapes go through one another.',
demo="""
w = World()
a, b = box(), Body(mass=massmatrix.sphere(.1, 1.))
j = FreeJoint(gpos=Hg.transl(0., -.5, 0.), gvel=[0, 0, 0, 0, 70., 0])
w.add_link(w.ground, j, a)
w.add_link(w.ground, FreeJoint(), b)
p, s = Plane(a, (0., 1., 0., 0.)), Sphere(b, .1)
w.register(p)
w.register(s)
w.register(SoftFingerContact((p, s), .5))
w.init()
step(w, 1e-2)
w.update_dynamic()
expect(b.pose[1, 3] - a.pose[1, 3] > .1 - 1e-6, 'distance %g' % (b.pose[1, 3] - a.pose[1, 3]))
""")

BUGS['C07b'] = dict(property='C07', edits=[('arboris/constraints.py',
"""               sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
""",
"""               sum((force[1:3]/self._eps[1:3])**2) <= (force[3]*self._mu)**2:
""")],
needs='a contact which pivots (spins about the normal) while it hardly slides',
breaks='The pivoting torque needed to stop the spin is applied, whatever its size.',
demo="""
w = World()
m = massmatrix.sphere(.1, 1.)
b = Body(mass=m)
j = FreeJoint(gpos=Hg.transl(0., .1, 0.), gvel=[0., 50., 0., 0., 0., 0.])
w.add_link(w.ground, j, b)
p, s = Plane(w.ground, (0., 1., 0., 0.)), Sphere(b, .1)
w.register(p)
w.register(s)
c = SoftFingerContact((p, s), .1)
w.register(c)
w.register(WeightController())
w.init()
step(w, 1e-3)
expect(abs(c._force[0]) <= .1 * c._force[3] * (1 + 1e-6), str(c._force))
expect(c._force[3] > 9., str(c._force))
""")

BUGS['C20a'] = dict(property='C20', edits=[('arboris/core.py',
"""    def integrate(self, gvel, dt):
        self.gvel = gvel
        self.gpos += dt * self.gvel
""",
"""    def integrate(self, gvel, dt):
        self.gvel = gvel
        step = dt * self.gvel
        # a joint at rest should not move because of the rounding errors
        step[abs(step) < 1e-8] = 0.
        self.gpos += step
""")],
needs='a joint which moves by less than 1e-8 rad (or m) per step, for many steps',
breaks='Slow motions do not happen, however long the simulation is.',
demo="""
w = World()
j = RzJoint(gvel=[5e-6])
w.add_link(w.ground, j, box())
w.init()
for i in range(2000):
    step(w, 1e-3)
expect(abs(j.gpos[0] - 1e-5) < 1e-9, str(j.gpos))
""")

BUGS['C20b'] = dict(property='C20', edits=[('arboris/twistvector.py',
"""    if t >= 0.001:
""",
"""    if t >= 0.01: # avoid the cancellation in 1-cos(t) and t-sin(t)
""")],
needs='a free body which turns by 1e-3 to 1e-2 rad per step, for tens of steps',
breaks='The rotation per step is off by 1e-11 to 1e-9: the orientation drifts.',
demo="""
w = World()
b = box((.1, .1, .1))
j = FreeJoint(gvel=[0., 0., 9., 0., 0., 0.])
w.add_link(w.ground, j, b)
w.init()
for i in range(1000):
    step(w, 1e-3)
a = math.atan2(j.gpos[1, 0], j.gpos[0, 0])
expect(abs((a - 9. + pi) % (2 * pi) - pi) < 1e-10, repr(a))
""")

BUGS['C20c'] = dict(property='C20', edits=[('arboris/constraints.py',
"""        self._sdist = sdist
""",
"""        self._sdist = float(sdist)
        # the frames may have been forgotten by the world
        for f in self._frames:
            self._child_obj_to_reg.append(f)
""")],
needs='a contact, and a run of many steps',
breaks='Two references are kept at each step: the memory grows as long as the simulation lasts.',
demo="""
import gc
w = World()
b = Body(mass=massmatrix.sphere(.1, 1.))
w.add_link(w.ground, FreeJoint(gpos=Hg.transl(0., .1, 0.)), b)
p, s = Plane(w.ground, (0., 1., 0., 0.)), Sphere(b, .1)
w.register(p)
w.register(s)
w.register(SoftFingerContact((p, s), .5))
w.register(WeightController())
w.init()


def kept():
    gc.collect()
    return sum(len(o) for o in gc.get_objects() if type(o) in (list, dict, set))


n = []
for k in range(4):
    for i in range(100):
        step(w, 1e-3)
    n.append(kept())
expect(n[3] - n[2] < 60 or n[2] - n[1] < 60, str(n))
""")

BUGS['C20d'] = dict(property='C20', edits=[('arboris/joints.py',
"""        self.gpos = array(gpos, dtype=float).reshape((4, 4))
        self.gvel = array(gvel, dtype=float).reshape((6))
""",
"""        self.gpos = array(gpos, dtype=float).reshape((4, 4))
        self.gvel = array(gvel, dtype=float).reshape((6))
        self._trajectory = []
"""), ('arboris/joints.py',
"""    def pose(self):
        return self.gpos.copy()
""",
"""    def pose(self):
        # the positions which were used, to debug the controllers
        if not self._trajectory or (self._trajectory[-1] != self.gpos).any():
            self._trajectory.append(self.gpos.copy())
        return self._trajectory[-1].copy()
""")],
needs='a free joint, and a run of many steps',
breaks='The whole trajectory is kept in memory.',
demo="""
import gc
w = World()
w.add_link(w.ground, FreeJoint(gvel=[1., 2., 3., 1., 0., 0.]), box())
w.init()
n = []
for k in range(4):
    for i in range(100):
        step(w, 1e-3)
    gc.collect()
    n.append(sum(len(o) for o in gc.get_objects() if type(o) in (list, dict, set)))
expect(n[3] - n[2] < 60 or n[2] - n[1] < 60, str(n))
""")
