BUGS = {}

BUGS['C12a'] = dict(property='C12', edits=[('arboris/observers.py',
"""        self._record = [None]*(len(timeline)-1)
        self._index = 0

    def update(self, dt):
        pass
""",
"""        if len(self._record) != len(timeline)-1:
            self._record = [None]*(len(timeline)-1)
        self._index = 0

    def update(self, dt):
        pass
""")],
needs='a recorder used for a second run with as many steps as the first one, by a user who kept the first record',
breaks='the second run writes in the record of the first one',
demo="""
w = World()
j = RzJoint(gvel=[1.])
w.add_link(w.ground, j, box())
from arboris.observers import RecordJointGpos
o = RecordJointGpos(j)
simulate(w, [0., .1, .2, .3], [o])
first = o.get_record()
kept = [float(x[0]) for x in first]
simulate(w, [1., 1.1, 1.2, 1.3], [o])
expect([float(x[0]) for x in first] == kept, 'the record of the first run now reads %s instead of %s' % (first, kept))
""")

BUGS['C12b'] = dict(property='C12', edits=[('arboris/observers.py',
"""        self.mechanichal_energy = []
        self._com_pos           = {}
        self._bodies = self._world.ground.iter_descendant_bodies
        for body in self._bodies():
            self._com_pos[body]  = principalframe(body.mass)[:, 3]
""",
"""        self.mechanichal_energy = []
        self._bodies = self._world.ground.iter_descendant_bodies
        for body in self._bodies():
            if body not in self._com_pos:
                self._com_pos[body] = principalframe(body.mass)[:, 3]
""")],
needs='an energy monitor used for a second run, after the mass distribution of a body was changed',
breaks='the potential energy of the second run uses the centre of mass of the first one',
demo="""
from arboris.observers import EnergyMonitor
w = World()
b = box()
w.add_link(w.ground, RzJoint(), b)
e = EnergyMonitor()
simulate(w, [0., .001], [e])
b.mass = massmatrix.transport(massmatrix.sphere(.1, 2.), Hg.transl(0., -.5, 0.))
simulate(w, [0., .001], [e])
expect(abs(e.potential_energy[0] - 9.81*2.*.5) < 1e-9, 'potential energy %s' % e.potential_energy)
""")

BUGS['C12c'] = dict(property='C12', edits=[('arboris/observers.py',
"""        self._record = [None]*(len(timeline)-1)
        self._index = 0

    def update(self, dt):
        pass
""",
"""        self._record = [None]*(len(timeline)-1)

    def update(self, dt):
        pass
"""), ('arboris/observers.py',
"""        self._record[self._index] = data
        self._index += 1

    def finish(self):
        pass
""",
"""        self._record[self._index] = data
        self._index = (self._index + 1) % len(self._record)

    def finish(self):
        pass
""")],
needs='a recorder reused after a run which was aborted between two steps',
breaks='the entries of the second run are shifted',
demo="""
from arboris.observers import RecordJointGvel
class Stop(Exception):
    pass
class O(Observer):
    on = True
    def init(self, world, timeline):
        self.n = 0
    def update(self, dt):
        self.n += 1
        if self.on and self.n == 2:
            raise Stop()
    def finish(self):
        pass
w = World()
j = RzJoint(gvel=[0.])
w.add_link(w.ground, j, SubFrame(box(), Hg.transl(.3, .2, 0.)))
w.register(WeightController())
r, o = RecordJointGvel(j), O()
try:
    simulate(w, [0., .1, .2, .3, .4], [r, o])
except Stop:
    pass
o.on = False
j.gvel[:] = 5.
simulate(w, [0., .1, .2, .3, .4], [r, o])
expect(r.get_record()[0] == 5., 'first entry %s' % r.get_record()[0])
""")

BUGS['C12d'] = dict(property='C12', edits=[('arboris/observers.py',
"""                Ad_com2_body = iadjoint(dot(self.H_body_com[i], H_com_i_com2))
""",
"""                H_body_com2 = H_com_i_com2
                if self.H_body_com[i][0:3, 3].any():
                    H_body_com2 = dot(self.H_body_com[i], H_com_i_com2)
                Ad_com2_body = iadjoint(H_body_com2)
""")],
needs='a body whose centre of mass is the origin of its frame and whose inertia is not diagonal in it',
breaks='the centre-of-mass Jacobian is expressed in the wrong axes',
demo="""
from arboris.observers import CoMObserver
R = Hg.rotzyx(.4, .7, .2)
b = Body(mass=massmatrix.transport(diag([1., 2., 2.5, 3., 3., 3.]), R))
w = World()
w.add_link(w.ground, FreeJoint(), b)
c = CoMObserver([b])
simulate(w, [0., .001], [c])
expect(np.allclose(c.get_CoMJacobian(), np.hstack([zeros((3, 3)), eye(3)])), 'CoM Jacobian %s' % c.get_CoMJacobian())
""")
