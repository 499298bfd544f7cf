BUGS = {}

VIEW = '''
import threading, time, socket, io, contextlib
DIR = tempfile.mkdtemp(prefix='demo14-')
import atexit, shutil
atexit.register(shutil.rmtree, DIR, True)
VIEWER = os.path.join(DIR, 'viewer.py')
open(VIEWER, 'w').write("""
import sys, socket, os
s = socket.create_connection((sys.argv[2], int(sys.argv[3])), 10)
d = b''
while True:
    x = s.recv(65536)
    if not x:
        break
    d += x
open(%r, 'wb').write(d)
os.rename(%r, %r)
""" % (os.path.join(DIR, 'tmp'), os.path.join(DIR, 'tmp'), os.path.join(DIR, 'got')))


def received():
    got = os.path.join(DIR, 'got')
    for _ in range(1000):
        if os.path.exists(got):
            d = open(got, 'rb').read()
            os.remove(got)
            return d
        time.sleep(.01)
    expect(False, 'the viewer did not end')


def messages(d):
    """[(name, 12 numbers)] and what follows"""
    *l, tail = d.split(b'\\n')
    out = []
    for x in l:
        w = x.rsplit(b' ', 12)
        out.append((w[0].decode(), np.array([float(v) for v in w[1:]])))
    return out, tail


def com(**k):
    from arboris.visu.visu_collada import DaenimCom
    return DaenimCom(VIEWER, daenim_path=sys.executable, port=5311, **k)


def run(w, t, *obs):
    with contextlib.redirect_stdout(io.StringIO()):
        simulate(w, t, obs)


class Poses(Observer):
    def init(self, world, timeline):
        self.w, self.v = world, []
    def update(self, dt):
        self.v.append([np.array(j.pose[:3]).reshape(12) for j in self.w.getjoints()] +
                      [np.array(f.bpose[:3]).reshape(12) for f in self.w.itermovingsubframes()])
    def finish(self):
        pass


def world(name='b', n=1):
    w = World()
    f = w.ground
    for i in range(n):
        b = box(name='%s%d' % (name, i))
        w.add_link(f, RzJoint(gvel=[1.], name='j%s%d' % (name, i)), b)
        f = b
    return w
'''

BUGS['C14a'] = dict(property='C14', edits=[('arboris/observers.py',
"""        except socket.error:
            print("Connection error: no connection occurs")
""",
"""        except socket.timeout:
            print("Connection error: no connection occurs")
""")],
needs='the acceptance of the connection fails for another reason than the timeout (out of file descriptors, connection aborted by the peer), or the socket cannot listen',
breaks='The failure of the viewer link ends the simulation before its first step instead of leaving it to run without viewer.',
demo=VIEW + '''
import resource
from arboris.observers import SocketCom
class Com(SocketCom):
    def update(self, dt):
        pass
c = Com(port=5312, timeout=5)
p = Poses()
# a viewer connects, but no file descriptor is left for its connection
done = threading.Event()
def viewer():
    while not done.is_set():
        try:
            s.connect(('127.0.0.1', c.port))
            return
        except ConnectionRefusedError:
            time.sleep(.05)
        except OSError:
            return
s = socket.socket()
t = threading.Thread(target=viewer, daemon=True)
t.start()
n = max(int(x) for x in os.listdir('/proc/self/fd')) + 1
keep = []
try:
    while True:
        keep.append(os.dup(0))
        if len(keep) > n:
            break
except OSError:
    pass
resource.setrlimit(resource.RLIMIT_NOFILE, (max(keep) + 1, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
try:
    run(world(), [0., .01, .02, .03], c, p)
except OSError as e:
    resource.setrlimit(resource.RLIMIT_NOFILE, (1024, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
    expect(False, 'the simulation ended with %r' % e)
done.set()
expect(len(p.v) == 3, 'three steps are run')
''')

BUGS['C14b'] = dict(property='C14', edits=[('arboris/visu/visu_collada.py',
"""            H = f.pose if self.flat else f.bpose
            msg += self.packing_transform(f.name, H)
""",
"""            H = f.pose if self.flat else self.bposes[f]
            msg += self.packing_transform(f.name, H)
"""), ('arboris/visu/visu_collada.py',
"""        name_all_elements(self.world.itermovingsubframes(), True)

    def update""",
"""        name_all_elements(self.world.itermovingsubframes(), True)
        # relative to the bodies: the same during the whole simulation
        self.bposes = dict((f, f.bpose) for f in self.world.itermovingsubframes())

    def update""")],
needs='a tree-shaped (not flat) scene with a moving frame whose pose in its body is set during the simulation',
breaks='The viewer goes on receiving the transform the moving frame had at the beginning.',
demo=VIEW + '''
w = world()
f = MovingSubFrame(w.getbodies()[1], Hg.transl(.1, 0., 0.), name='mover')
w.register(f)
class Mover(Observer):
    def init(self, world, timeline):
        self.k = 0
    def update(self, dt):
        self.k += 1
        f.bpose = Hg.transl(.1, .1 * self.k, 0.)
    def finish(self):
        pass
c, p = com(timeout=10), Poses()
run(w, [0., .1, .2, .3], Mover(), p, c)
m, tail = messages(received())
expect(len(m) == 6 and tail == b'close_connection', 'three steps of two elements')
for k in range(3):
    for i, n in enumerate(('b0', 'mover')):
        expect(m[2*k+i][0] == n and np.allclose(m[2*k+i][1], p.v[k][i], atol=1e-9), 'transform of %s at step %d' % (n, k))
''')

BUGS['C14c'] = dict(property='C14', edits=[('arboris/visu/visu_collada.py',
"""        self.flat = flat
        self.world = None

    def init""",
"""        self.flat = flat
        self.world = None
        self._sent = None # time of the last message

    def init"""), ('arboris/visu/visu_collada.py',
"""        if self.flat:
            msg = """,
"""        if self._sent is not None and self.world.current_time <= self._sent:
            return # this instant is shown already
        self._sent = self.world.current_time
        if self.flat:
            msg = """)],
needs='the same observer is used for a second simulation, which starts before the end of the first one',
breaks='The viewer of the second simulation receives nothing until the time at which the first simulation ended.',
demo=VIEW + '''
w = world()
c, p = com(timeout=10, flat=True), Poses()
for k in range(2):
    run(w, [0., .1, .2, .3], p, c)
    m, tail = messages(received())
    expect(tail == b'close_connection' and len(m) == 6, 'run %d: three steps of two elements' % k)
''')

BUGS['C14d'] = dict(property='C14', edits=[('arboris/visu/visu_collada.py',
"""        self.world = world
        sleep(.1)
""",
"""        if self.world is None or self.world.ndof != world.ndof:
            self.world = world
        sleep(.1)
""")],
needs='the same observer is used for simulations of two worlds with as many degrees of freedom',
breaks='The viewer of the second world receives the elements and transforms of the first one.',
demo=VIEW + '''
c, p = com(timeout=10), Poses()
for name in ('a', 'b'):
    run(world(name, 2), [0., .1, .2], p, c)
    m, tail = messages(received())
    expect(tail == b'close_connection' and [x[0] for x in m] == [name + '0', name + '1'] * 2, 'elements of world %s: %s' % (name, [x[0] for x in m]))
    for k in range(2):
        for i in range(2):
            expect(np.allclose(m[2*k+i][1], p.v[k][i], atol=1e-9), 'transform %d at step %d' % (i, k))
''')
