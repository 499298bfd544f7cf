BUGS = {}

BUGS['C15a'] = dict(property='C15', edits=[('arboris/core.py',
"""        return JointsList(self.iterjoints())
""",
"""        if self._joints is None or self._joints_ndof != self._ndof:
            self._joints = JointsList(self.iterjoints())
            self._joints_ndof = self._ndof
        return self._joints
"""), ('arboris/core.py',
"""        self._subframes    = []
        self._shapes       = []
""",
"""        self._subframes    = []
        self._joints       = None # cached list of joints
        self._shapes       = []
""")],
needs='the joints are asked for, then a joint is replaced by one with as many degrees of freedom (or a link without degree of freedom is added), and they are asked for again',
breaks='World.getjoints still lists the replaced joint and not the one which is in the tree.',
demo='''
w = World()
a, b = box(name='a'), box(name='b')
w.add_link(w.ground, RzJoint(name='j1'), a, a, RzJoint(name='j2'), b)
w.init()
expect([j.name for j in w.getjoints()] == ['j1', 'j2'], 'joints')
w.replace_joint(w.getjoints()['j2'], RxJoint(name='j3'))
expect([j.name for j in w.iterjoints()] == ['j1', 'j3'], 'iterjoints after the replacement')
expect([j.name for j in w.getjoints()] == ['j1', 'j3'], 'getjoints after the replacement')
c = box(name='c')
w.add_link(w.ground, FixedJoint(name='j4'), c)
w.init()
expect([j.name for j in w.getjoints()] == ['j1', 'j3', 'j4'], 'getjoints after the addition of a fixed link')
''')

BUGS['C15b'] = dict(property='C15', edits=[('arboris/core.py',
"""        # Init the worldwide generalized velocity vector:
        self._gvel = zeros(self._ndof)
        for j in self.iterjoints():
            self._gvel[j.dof] = j.gvel[:]
            j.gvel = self._gvel[j.dof]
""",
"""        # Init the worldwide generalized velocity vector:
        gvel = zeros(self._ndof)
        for j in self.iterjoints():
            if j.gvel.base is not None and j.gvel.base is self._gvel:
                # already a part of the worldwide vector
                gvel[j.dof] = self._gvel[j.dof.start:j.dof.stop]
            else:
                gvel[j.dof] = j.gvel[:]
        self._gvel = gvel
        for j in self.iterjoints():
            j.gvel = self._gvel[j.dof]
""")],
needs='a joint whose dofs are shifted by an edit (a joint before it is replaced by one with another number of dofs, or a link is added before it) while the world moves and was already initialised',
breaks='Joints take over the velocity which another joint had before the edit.',
demo='''
w = World()
a, b = box(name='a'), box(name='b')
w.add_link(w.ground, RzJoint(gvel=[1.], name='j1'), a, a, RzJoint(gvel=[2.], name='j2'), b)
w.init()
j2 = w.getjoints()['j2']
expect(np.allclose(w.gvel, [1., 2.]), 'velocities')
w.replace_joint(w.getjoints()['j1'], RzJoint(gvel=[5.], name='j3'))
expect(np.allclose(w.gvel, [5., 2.]), 'velocities after the replacement by a joint with one dof')
w.replace_joint(w.getjoints()['j3'], RzRyJoint(gvel=[7., 8.], name='j4'))
expect(np.allclose(j2.gvel, [2.]) and np.allclose(w.gvel, [7., 8., 2.]), 'velocities after the replacement by a joint with two dofs: %s' % w.gvel)
''')

BUGS['C15c'] = dict(property='C15', edits=[('arboris/core.py',
"""            if not frame in registered:
                registered.add(frame)
                target.register(frame)
""",
"""            key = frame.name or frame
            if not key in registered:
                registered.add(key)
                target.register(frame)
"""), ('arboris/core.py',
"""                        if not(f in registered) and (frame is f.body):
""",
"""                        if not((f.name or f) in registered) and (frame is f.body):
""")],
needs='two frames or bodies of the world with the same name',
breaks='Parsing the world leaves out the second frame (or body) of this name, and the shapes on it.',
demo='''
w = World()
a, b = box(name='arm'), box(name='hand')
w.add_link(w.ground, RzJoint(), a, a, RzJoint(), b)
fr = [SubFrame(a, Hg.transl(.1, 0., 0.), name='tip'), SubFrame(b, Hg.transl(.2, 0., 0.), name='tip'), SubFrame(b, name='hand')]
for f in fr:
    w.register(f)
s = Sphere(fr[1], .1)
w.register(s)
w.init()
seen = []
class Target:
    def init_parse(self, ground, up, t):
        pass
    def add_link(self, f0, j, f1):
        pass
    def register(self, obj):
        seen.append(obj)
w.parse(Target())
for o in [w.ground, a, b, s] + fr:
    expect(sum(o is x for x in seen) == 1, '%r is presented %d times' % (o, sum(o is x for x in seen)))
''')

BUGS['C15d'] = dict(property='C15', edits=[('arboris/core.py',
"""            assert old_joint.frame0.body is body0
            assert old_joint.frame1.body is body1
""",
"""            assert old_joint.frame0.body is body0
            assert body1 is old_joint.frame1.body or \\
                   body1.parentjoint is not None or len(args) > 3
""")],
needs='a joint is replaced by a chain of several links which does not end on the body that the joint carried',
breaks='The call is accepted: the body stays out of the tree with a parent joint which is attached to nothing.',
demo='''
w = World()
a, b = box(name='a'), box(name='b')
j1, j2 = RzJoint(name='j1'), RzJoint(name='j2')
w.add_link(w.ground, j1, a, a, j2, b)
w.init()
m, e = box(name='m'), box(name='e')
try:
    w.replace_joint(j1, w.ground, RxJoint(name='j3'), m, m, RyJoint(name='j4'), e)
    expect(False, 'a chain which ends on another body is accepted')
except Exception:
    pass
expect([x.name for x in w.iterbodies()] == ['ground', 'a', 'b'], 'bodies')
expect([x.name for x in w.iterjoints()] == ['j1', 'j2'] and j1.frames == (w.ground, a) and a.parentjoint is j1, 'joints')
''')
