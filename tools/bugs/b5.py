BUGS = {}

BUGS['C10a'] = dict(property='C10', edits=[('arboris/core.py',
"""        self._gforce[:] = 0.
        self._impedance = self._mass/dt + self._viscosity + self._nleffects
        for a in self._controllers:
            (gforce, impedance) = a.update(dt)
            self._gforce += gforce
            self._impedance -= impedance
""",
"""        self._gforce[:] = 0.
        # the same storage is used at each step for the impedances
        global _impedance
        if _impedance is None or _impedance.shape != self._mass.shape:
            _impedance = zeros(self._mass.shape)
        _impedance[:] = self._mass/dt + self._viscosity + self._nleffects
        for a in self._controllers:
            (gforce, impedance) = a.update(dt)
            self._gforce += gforce
            _impedance -= impedance
        self._impedance = _impedance.copy()
"""), ('arboris/core.py',
"""import warnings

def simplearm():""",
"""import warnings

_impedance = None

def simplearm():""")],
needs='two worlds with as many degrees of freedom whose steps overlap (threads, or a controller which simulates another world to predict)',
breaks='the impedance of one world is computed in the storage the other is using',
demo="""
def make(m, k):
    w = World()
    j = RzJoint(gpos=[.3], gvel=[1.])
    w.add_link(w.ground, j, box(mass=m))
    w.register(WeightController())
    w.init()
    w.register(ProportionalDerivativeController([j], k))
    w.init()
    return w, j

class Predict(Controller):
    def __init__(self, other):
        Controller.__init__(self)
        self.other = other
    def init(self, world):
        self.n = world.ndof
    def update(self, dt):
        if self.other is not None:
            step(self.other, dt)
        return zeros(self.n), zeros((self.n, self.n))

res = []
for other in (None, make(7., 3.)[0]):
    w, j = make(1., 20.)
    w.register(Predict(other))
    w.init()
    for i in range(5):
        step(w, 0.01)
    res.append((float(j.gpos[0]), float(j.gvel[0])))
expect(res[0] == res[1], 'trajectory %s alone and %s next to another simulation' % tuple(res))
""")

BUGS['C10b'] = dict(property='C10', edits=[('arboris/controllers.py',
"""        self._bodies = [x for x in world.ground.iter_descendant_bodies() \\
                        if norm(x.mass>0.)]
""",
"""        key = id(world)
        bodies = list(world.ground.iter_descendant_bodies())
        if key not in _heavy or len(_heavy[key]) != len(bodies):
            _heavy[key] = [bool(norm(x.mass>0.)) for x in bodies]
        self._bodies = [x for x, h in zip(bodies, _heavy[key]) if h]
"""), ('arboris/controllers.py',
"""class WeightController(""",
"""_heavy = {} # which bodies have a mass, for each world

class WeightController(""")],
needs='a world rebuilt in the same process at the address of a discarded one, with as many bodies and other massless ones',
breaks='the weight of bodies is forgotten',
demo="""
def run(first):
    w = World()
    j0, j1 = TyJoint(), TyJoint()
    a, b = (Body('a'), box(name='b')) if first else (box(name='a'), Body('b'))
    if first:
        w.add_link(w.ground, j0, a)
        w.add_link(a, j1, b)
        b.viscosity = eye(6)
        a.mass = massmatrix.box((.1, .1, .1), 0.)
    else:
        w.add_link(w.ground, j0, a)
        w.add_link(w.ground, j1, b)
        b.mass = massmatrix.box((.1, .1, .1), 1.)
    w.register(WeightController())
    w.init()
    w.update_dynamic()
    w.update_controllers(0.01) if not first else None
    return w.gforce
import gc
ref = run(False)
for i in range(200):
    run(True)
    gc.collect()
    f = run(False)
    expect(np.array_equal(f, ref), 'generalized force %s instead of %s after other worlds were built' % (f, ref))
    gc.collect()
""")

BUGS['C10c'] = dict(property='C10', edits=[('arboris/core.py',
"""class MovingSubFrame(_SubFrame):
    @property
    def bpose(self):
        return self._bpose.copy()
""",
"""class MovingSubFrame(_SubFrame):
    @property
    def bpose(self):
        return self._bpose
""")],
needs='a user who computes with the bpose of a moving subframe in place',
breaks='the frame moves on its body when the returned array is modified',
demo="""
w = World()
b = box()
w.add_link(w.ground, FreeJoint(), b)
f = MovingSubFrame(b, Hg.transl(1., 2., 3.))
w.register(f)
w.init()
w.update_dynamic()
H = f.bpose
H[0:3, 3] *= 2.
w.update_dynamic()
expect(np.array_equal(f.pose[0:3, 3], [1., 2., 3.]), 'the frame has moved to %s' % f.pose[0:3, 3])
""")

BUGS['C10d'] = dict(property='C10', edits=[('arboris/core.py',
"""        self._is_enabled = True
        self._force = zeros(0)
        self._child_obj_to_reg = []
""",
"""        self._is_enabled = True
        self._force = zeros(0)
"""), ('arboris/core.py',
"""    __metaclass__ = ABCMeta

    def __init__(self, name=None):
        NamedObject.__init__(self, name)
        self._is_enabled = True
""",
"""    __metaclass__ = ABCMeta

    _child_obj_to_reg = [] # registered with the constraint

    def __init__(self, name=None):
        NamedObject.__init__(self, name)
        self._is_enabled = True
""")],
needs='two worlds with contacts in one process',
breaks='the contact frames of one world are registered in the other',
demo="""
def make():
    w = World()
    b = box()
    w.add_link(w.ground, FreeJoint(), b)
    s, p = Sphere(b, .1), Plane(w.ground)
    w.register(s)
    w.register(p)
    w.register(SoftFingerContact((s, p), .5))
    return w
n = len(list(make().iterframes()))
m = len(list(make().iterframes()))
expect(n == m, '%d frames in the second world, %d in the first one' % (m, n))
""")
