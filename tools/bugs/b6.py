BUGS = {}

BUGS['C11a'] = dict(property='C11', edits=[('arboris/core.py',
"""            j.integrate(self._gvel[j.dof], dt)
        self._current_time += dt
""",
"""            j.integrate(self._gvel[j.dof], dt)
        # do not accumulate rounding errors in the clock
        self._current_time = round(self._current_time + dt, 6)
""")],
needs='a timeline with times which are not multiples of a microsecond',
breaks='clock and dt do not follow the timeline',
demo="""
class O(Observer):
    def init(self, world, timeline):
        self.w, self.l = world, []
    def update(self, dt):
        self.l.append((self.w.current_time, dt))
    def finish(self):
        pass
w = World()
w.add_link(w.ground, RzJoint(), box())
t = [0., 1./1024, 3./1024, 4./1024]
o = O()
simulate(w, t, [o])
expect(o.l == [(0., 1./1024), (1./1024, 2./1024), (3./1024, 1./1024)], 'clock and dt were %s' % o.l)
expect(w.current_time == t[-1], 'the run ends at %s' % w.current_time)
""")

BUGS['C11b'] = dict(property='C11', edits=[('arboris/core.py',
"""        for c in constraints:
            self._gforce += c.gforce

""",
"""        self._active = constraints

"""), ('arboris/core.py',
"""        assert dt > 0
        self._gvel[:] = dot(self._admittance,
                            dot(self._mass, self._gvel/dt) + self._gforce)
""",
"""        assert dt > 0
        for c in self._active:
            self._gforce += c.gforce
        self._active = []
        self._gvel[:] = dot(self._admittance,
                            dot(self._mass, self._gvel/dt) + self._gforce)
"""), ('arboris/core.py',
"""        self._gforce       = array([])

    def iterbodies""",
"""        self._gforce       = array([])
        self._active       = []

    def iterbodies""")],
needs='an active constraint, and an observer which reads the generalized force of the world',
breaks='the constraint forces are not in World.gforce when the observers are updated',
demo="""
class O(Observer):
    def init(self, world, timeline):
        self.w, self.f = world, []
    def update(self, dt):
        self.f.append((float(self.w.gforce[0]), float(c.gforce[0])))
    def finish(self):
        pass
w = World()
j = RzJoint(gpos=[0.])
w.add_link(w.ground, j, box())
c = JointLimits(j, -1e-3, 1e-3)
w.register(c)
j.gvel[:] = 3.
w.init()
o = O()
simulate(w, [0., .01, .02], [o])
expect(o.f[0][1] < 0., 'the limit is not active')
expect(all(a == b for a, b in o.f), 'World.gforce and limit force: %s' % o.f)
""")

BUGS['C11c'] = dict(property='C11', edits=[('arboris/core.py',
"""    for next_time in timeline[1:]:
        dt = next_time - world.current_time
        world.update_dynamic()
""",
"""    key = (id(timeline), len(timeline))
    if key not in _steps or _steps[key][0] != timeline[0]:
        _steps[key] = (timeline[0], [timeline[k+1] - timeline[k]
                                     for k in range(len(timeline)-1)])
    for dt in _steps[key][1]:
        world.update_dynamic()
"""), ('arboris/core.py',
"""def simulate(world, timeline, observers=()):
""",
"""_steps = {} # the steps of each timeline, so that they are computed only once

def simulate(world, timeline, observers=()):
""")],
needs='a second run whose timeline has the same first time and length and lives at the same address (or was changed in place)',
breaks='the steps of the previous timeline are used again',
demo="""
class O(Observer):
    def init(self, world, timeline):
        self.l = []
    def update(self, dt):
        self.l.append(float(dt))
    def finish(self):
        pass
w = World()
w.add_link(w.ground, RzJoint(), box())
o = O()
t = np.array([0., 1./64, 2./64])
simulate(w, t, [o])
t *= 2.
simulate(w, t, [o])
expect(o.l == [2./64, 2./64], 'steps %s of the second run' % o.l)
""")

