BUGS = {}

BUGS['C17a'] = dict(property='C17', edits=[('arboris/constraints.py',
"""        return (dot(Hg.adjoint(H_01)[3:6, :], self._frames[1].jacobian)
                -self._frames[0].jacobian[3:6, :])
""",
"""        # linear velocities, once brought in the axes of the first frame
        return (dot(H_01[0:3, 0:3], self._frames[1].jacobian[3:6, :])
                -self._frames[0].jacobian[3:6, :])
""")],
needs='a ball and socket between two moving bodies whose centres are not yet together',
breaks='the two bodies get opposite forces which are not on the same line: a net couple',
demo="""
w = World()
a, b = box(name='a'), box(name='b', mass=2.)
w.add_link(w.ground, FreeJoint(), a)
w.add_link(w.ground, FreeJoint(gpos=Hg.transl(1., .0, 0.)), b)
w.register(BallAndSocketConstraint((SubFrame(a, Hg.transl(.4, .1, .0)), SubFrame(b, Hg.transl(-.4, -.2, .0)))))
w.init()
step(w, 1e-2)
# starting at rest, the bodies get momentum where they are
ja, jb = w.getjoints()
P = dot(a.mass, ja.gvel), dot(b.mass, jb.gvel)
L = P[0][0:3] + P[1][0:3] + np.cross([1., 0., 0.], P[1][3:6])
expect(abs(L).max() < 1e-6, 'angular momentum out of nothing: %s' % L)
""")

BUGS['C17b'] = dict(property='C17', edits=[('arboris/constraints.py',
"""        return (dot(Hg.adjoint(H_01)[2:6, :], self._frames[1].jacobian)
                -self._frames[0].jacobian[2:6, :])
""",
"""        # the two frames have the same orientation
        return (self._frames[1].jacobian[2:6, :]
                -self._frames[0].jacobian[2:6, :])
""")],
needs='a contact with friction acting between surfaces which are some distance apart or overlap',
breaks='the friction forces on the two bodies are not on the same line: a net couple',
demo="""
w = World()
a, b = box(name='a'), box(name='b')
w.add_link(w.ground, FreeJoint(), a)
w.add_link(w.ground, FreeJoint(gpos=Hg.transl(0., .81, 0.), gvel=[0., 0., 0., 1., -2., 0.]), b)
sa, sb = Sphere(a, .4), Sphere(b, .4)
w.register(sa)
w.register(sb)
w.register(SoftFingerContact((sa, sb), 1., name='c'))
w.init()
step(w, 1e-2)
# no rotation: during the step the bodies get momentum where they are
ja, jb = w.getjoints()
P = dot(a.mass, ja.gvel), dot(b.mass, jb.gvel)
L = P[0][0:3] + P[1][0:3] + np.cross([0., .81, 0.], P[1][3:6] - [1., -2., 0.])
expect(abs(jb.gvel[1] + 2.) > .1, 'no impact')
expect(abs(L).max() < 1e-8, 'the impact changes the angular momentum by %s' % L)
""")

BUGS['C18d'] = dict(property='C18', edits=[('arboris/constraints.py',
"""        self._frames[1].bpose = dot(H_b1g, H_gc1)
        H_c0c1 = dot(Hg.inv(H_gc0), H_gc1)
""",
"""        if sdist > 0. or not self._is_active:
            # in contact, the surfaces touch at the very same point
            self._frames[1].bpose = dot(H_b1g, H_gc1)
            self._foot = None
        elif self._foot is None:
            self._foot = self._frames[1].bpose
        H_c0c1 = dot(Hg.inv(H_gc0), H_gc1)
"""), ('arboris/constraints.py',
"""        self._is_active = None
        self._sdist = None
""",
"""        self._is_active = None
        self._foot = None
        self._sdist = None
""")],
needs='a body which spins while it stays in an overlapping contact with another moving body, for several steps',
breaks='the contact frame of the second body turns with it instead of staying at the closest point along the normal',
demo="""
w = World()
a, b = box(name='a', mass=5.), box(name='b')
w.add_link(w.ground, FreeJoint(), a)
w.add_link(w.ground, FreeJoint(gpos=Hg.transl(0., .799, 0.), gvel=[0., 0., 9., 0., -1., 0.]), b)
sa, sb = Sphere(a, .4), Sphere(b, .4)
w.register(sa)
w.register(sb)
w.register(SoftFingerContact((sa, sb), .4, name='c'))
w.init()
jb = w.getjoints()[1]
f = list(w.itermovingsubframes())
for i in range(12):
    jb.gvel[0:3] = [0., 0., 9.]
    w.init()
    w.update_dynamic()
    w.update_controllers(1e-2)
    w.update_constraints(1e-2)
    expect(abs(f[0].pose[0:3, 0:3] - f[1].pose[0:3, 0:3]).max() < 1e-6, 'contact frames with different normals at step %d' % i)
    w.integrate(1e-2)
""")

BUGS['C18a'] = dict(property='C18', edits=[('arboris/collisions.py',
"""            normal[i-3] = -1 #TODO check this line is correct
""",
"""            normal[i-3] = 1
""")],
needs='a sphere center inside a box, nearer to one of the three faces of negative coordinate',
breaks='the normal points into the box',
demo="""
w = World()
b = box()
w.add_link(w.ground, FreeJoint(gpos=Hg.transl(.1, -.95, 0)), b)
B = Box(w.ground, (1., 1., 1.))
S = Sphere(b, .1)
w.register(B)
w.register(S)
c = SoftFingerContact((B, S), .5)
w.register(c)
w.init()
w.update_dynamic()
w.update_controllers(1e-3)
w.update_constraints(1e-3)
f = list(w.itermovingsubframes())
expect(f[0].pose[1, 2] < -.99, 'normal is %s' % f[0].pose[0:3, 2])
expect(abs(f[1].pose[1, 3] + .85) < 1e-9, 'point on the sphere at %s' % f[1].pose[0:3, 3])
""")

BUGS['C18b'] = dict(property='C18', edits=[('arboris/constraints.py',
"""        H_b0g = Hg.inv(self._shapes[0].frame.body.pose)
        H_b1g = Hg.inv(self._shapes[1].frame.body.pose)
        self._frames[0].bpose = dot(H_b0g, H_gc0)
        self._frames[1].bpose = dot(H_b1g, H_gc1)
""",
"""        if sdist < self._proximity or self._sdist is None:
            # out of reach, the frames are of no use
            H_b0g = Hg.inv(self._shapes[0].frame.body.pose)
            H_b1g = Hg.inv(self._shapes[1].frame.body.pose)
            self._frames[0].bpose = dot(H_b0g, H_gc0)
            self._frames[1].bpose = dot(H_b1g, H_gc1)
""")],
needs='two shapes farther than the proximity which move relatively to one another during several steps',
breaks='the contact frames are those of the last time the shapes were close',
demo="""
w = World()
b = box()
w.add_link(w.ground, FreeJoint(gpos=Hg.transl(0, 1., 0), gvel=[0., 0., 0., 3., 1., 0.]), b)
P = Plane(w.ground, (0., 1., 0., 0.))
S = Sphere(b, .1)
w.register(P)
w.register(S)
w.register(SoftFingerContact((P, S), .5))
w.init()
for i in range(30):
    step(w, 1e-2)
w.update_dynamic()
w.update_controllers(1e-2)
w.update_constraints(1e-2)
f = list(w.itermovingsubframes())
expect(abs(f[0].pose[0, 3] - b.pose[0, 3]) < 1e-6, 'contact frame at %s, body at %s' % (f[0].pose[0:3, 3], b.pose[0:3, 3]))
""")

BUGS['C18c'] = dict(property='C18', edits=[('arboris/collisions.py',
"""        normal = array([0., 0., 1.])
    H_gc0 = Hg.zaligned(normal)
""",
"""        normal = array([0., 0., 1.])
    # one inside the other: they are separated the other way
    H_gc0 = Hg.zaligned(-normal if cdist < max(radius0, radius1) else normal)
""")],
needs='two spheres overlapping so deeply that the center of one is inside the other',
breaks='the frames are on the far sides and the normal points from the second shape to the first',
demo="""
w = World()
b = box()
w.add_link(w.ground, FreeJoint(gpos=Hg.transl(.3, 0., 0)), b)
A, B = Sphere(w.ground, .5), Sphere(b, .1)
w.register(A)
w.register(B)
w.register(SoftFingerContact((A, B), .5))
w.init()
w.update_dynamic()
w.update_controllers(1e-3)
w.update_constraints(1e-3)
f = list(w.itermovingsubframes())
expect(f[0].pose[0, 2] > .99 and abs(f[0].pose[0, 3] - .5) < 1e-9, 'frame %s' % f[0].pose)
""")
