BUGS = {}

BUGS['C09a'] = dict(property='C09', edits=[('arboris/core.py',
"""        vel = dot(jac, dot(self._admittance,
                           dot(self._mass, self._gvel/dt) + gforce))
        admittance = dot(jac, dot(self._admittance, jac.T))
""",
"""        # predicted velocity, without the constraints solved below
        self._gvel /= dt
        vel = dot(jac, dot(self._admittance,
                           dot(self._mass, self._gvel) + gforce))
        admittance = dot(jac, dot(self._admittance, jac.T))
"""), ('arboris/core.py',
"""        for c in constraints:
            self._gforce += c.gforce

""",
"""        for c in constraints:
            self._gforce += c.gforce
        self._gvel *= dt

""")],
needs='an exception raised while the constraints are being solved (failing constraint, Ctrl-C)',
breaks='the joint velocities are left divided by dt',
demo="""
class Fail(Constraint):
    def __init__(self):
        Constraint.__init__(self)
        self._force = zeros(1)
        self.fail = False
    def init(self, world):
        self.w = world
    @property
    def jacobian(self):
        return zeros((1, self.w.ndof))
    @property
    def ndol(self):
        return 1
    def update(self, dt):
        pass
    def is_active(self):
        return True
    def solve(self, vel, adm, dt):
        if self.fail:
            raise KeyboardInterrupt()
        return zeros(1)
w = World()
j = RzJoint(gvel=[2.])
w.add_link(w.ground, j, box())
c = Fail()
w.register(c)
simulate(w, [0., 1./128, 2./128])
v = float(j.gvel[0])
c.fail = True
try:
    simulate(w, [2./128, 3./128])
except KeyboardInterrupt:
    pass
expect(j.gvel[0] == v, 'velocity %r instead of %r after the interrupted step' % (j.gvel[0], v))
""")

BUGS['C09b'] = dict(property='C09', edits=[('arboris/core.py',
"""    for next_time in timeline[1:]:
        dt = next_time - world.current_time
        world.update_dynamic()
        world.update_controllers(dt)
        world.update_constraints(dt)
        for obs in observers_list:
            obs.update(dt)
        world.integrate(dt)

""",
"""    try:
        for next_time in timeline[1:]:
            dt = next_time - world.current_time
            world.update_dynamic()
            world.update_controllers(dt)
            world.update_constraints(dt)
            for obs in observers_list:
                obs.update(dt)
            world.integrate(dt)
    finally:
        # get rid of the rounding errors of the successive additions
        world._current_time = timeline[-1]

""")],
needs='an observer, controller or constraint which raises during a run',
breaks='the clock of the interrupted run is the end of the timeline',
demo="""
class Stop(Observer):
    def init(self, world, timeline):
        self.w = world
    def update(self, dt):
        if self.w.current_time > .015:
            raise RuntimeError('stop')
    def finish(self):
        pass
w = World()
j = RzJoint(gvel=[2.])
w.add_link(w.ground, j, box())
try:
    simulate(w, [0., .01, .02, .03, .04], [Stop()])
except RuntimeError:
    pass
expect(abs(w.current_time - .02) < 1e-9, 'clock at %r' % w.current_time)
""")

BUGS['C09c'] = dict(property='C09', edits=[('arboris/core.py',
"""        self.ground.update_dynamic(
            eye(4),
            zeros((6,self._ndof)),
            zeros((6,self._ndof)),
            zeros(6))

        self._mass[:] = 0.
        self._viscosity[:] = 0.
        self._nleffects[:] = 0.
""",
"""        self.ground.update_dynamic(
            eye(4),
            zeros((6,self._ndof)),
            zeros((6,self._ndof)),
            zeros(6))

        # the matrices are empty after init() and integrate()
"""), ('arboris/core.py',
"""        for j in self.iterjoints():
            j.integrate(self._gvel[j.dof], dt)
        self._current_time += dt
""",
"""        for j in self.iterjoints():
            j.integrate(self._gvel[j.dof], dt)
        self._mass[:] = 0.
        self._viscosity[:] = 0.
        self._nleffects[:] = 0.
        self._current_time += dt
""")],
needs='a step retried after being interrupted, or the model updated twice, without World.init in between',
breaks='the mass matrix is counted twice in the retried step',
demo="""
w = World()
j = RzJoint(gvel=[2.])
w.add_link(w.ground, j, box())
w.init()
w.register(ProportionalDerivativeController([j], kp=array([[5.]]), kd=array([[1.]]), gpos_des=array([1.])))
w.init()
step(w, 1./128)
w.update_dynamic()          # interrupted here
q, v = j.gpos.copy(), j.gvel.copy()
step(w, 1./128)
w2 = World()
j2 = RzJoint(gpos=q, gvel=v)
w2.add_link(w2.ground, j2, box())
w2.init()
w2.register(ProportionalDerivativeController([j2], kp=array([[5.]]), kd=array([[1.]]), gpos_des=array([1.])))
w2.init()
step(w2, 1./128)
expect(abs(j.gvel - j2.gvel).max() < 1e-12, 'retried step gives %s, a rebuilt world %s' % (j.gvel, j2.gvel))
""")
