BUGS = {}

CHILD = '''
import subprocess, signal, resource, h5py, pickle
from arboris.observers import Hdf5Logger, PickleLogger, Observer
DIR = tempfile.mkdtemp(prefix='demo13-')
import atexit, shutil
atexit.register(shutil.rmtree, DIR, True)


def world(n=6):
    w = World()
    f = w.ground
    for i in range(n):
        b = box(name='b%d' % i)
        w.add_link(f, RzJoint(gvel=[.3*i], name='j%d' % i), b)
        f = SubFrame(b, Hg.transl(.4, 0., 0.))
    return w


def forked(fn):
    """run fn in another process; its exit status"""
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            fn()
            os._exit(0)
        except BaseException as e:
            os._exit(1)
    return os.waitpid(pid, 0)[1]


class Full(Observer):
    """the disk is full after n bytes when the run ends"""
    def __init__(self, n):
        Observer.__init__(self)
        self.n = n
    def init(self, world, timeline):
        pass
    def update(self, dt):
        pass
    def finish(self):
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.n))
'''

BUGS['C13a'] = dict(property='C13', edits=[('arboris/observers.py',
"""                dset[:] = v

        self._file.close()
""",
"""                dset[:] = v

        try:
            self._file.close()
        except (RuntimeError, ValueError):
            pass # closed already, by another logger of the same file
""")],
needs='a disk which is full when HDF5 writes its buffers at the close of the file',
breaks='simulate returns normally and the file is unreadable',
demo=CHILD + """
for n in (0, 500, 1000, 1500, 2000):
    fn = os.path.join(DIR, '%d.h5' % n)
    st = forked(lambda: simulate(world(), [1.], [Full(n), Hdf5Logger(fn, save_model=True)]))
    try:
        with h5py.File(fn, 'r') as f:
            ok = f['timeline'].shape == (0,) and len(f['transforms']) == 6 and len(f['model']) == 5
    except Exception:
        ok = False
    expect(ok or st != 0, 'simulate returned normally and the log is unreadable')
st = forked(lambda: simulate(world(), np.arange(0., .02, .001), [Hdf5Logger(fn + '2')]))
expect(st == 0, 'without a failure')
""")

BUGS['C13b'] = dict(property='C13', edits=[('arboris/observers.py',
"""        with open(self._filename, self._mode) as _file:
            pkl.dump(self._root, _file, self._protocol)
""",
"""        # one single write, without the small writes of the pickler
        data = pkl.dumps(self._root, self._protocol)
        with open(self._filename, self._mode, buffering=0) as _file:
            _file.write(data)
""")],
needs='a write which is only partially done by the system, as when the disk gets full',
breaks='the pickle is truncated and simulate returns normally',
demo=CHILD + """
fn = os.path.join(DIR, 'x.pkl')
st = forked(lambda: simulate(world(), np.arange(0., .02, .001), [Full(3000), PickleLogger(fn)]))
try:
    with open(fn, 'rb') as f:
        ok = len(pickle.load(f)['timeline']) == 19
except Exception:
    ok = False
expect(ok or st != 0, 'simulate returned normally and the log is truncated')
st = forked(lambda: simulate(world(), np.arange(0., .02, .001), [PickleLogger(fn + '2')]))
expect(st == 0, 'without a failure')
""")

BUGS['C13c'] = dict(property='C13', edits=[('arboris/observers.py',
"""        dset = self._h5_root.require_dataset("timeline", (self._nb_steps,), "f8")
        dset[:] = self._root["timeline"]
        group_elements = list(self._root.keys())
        group_elements.remove("timeline")
""",
"""        dset = self._h5_root.require_dataset("timeline", (self._nb_steps,), "f8")
        dset[:] = self._root["timeline"]
        group_elements = list(self._root.keys())
        group_elements.remove("timeline")
        # reserve the space first, not to be short of it half-way
        for elem in group_elements:
            for k, v in self._root[elem].items():
                self._h5_root.require_dataset(elem + '/' + k, v.shape, "f8")
        self._file.flush()
""")],
needs='a process killed while the log is written',
breaks='the file holds a log which looks complete, full of zeros',
demo=CHILD + """
fn = os.path.join(DIR, 'x.h5')
bad = []
for n in range(1, 60):
    if os.path.exists(fn):
        os.remove(fn)
    class Kill(Observer):
        def init(self, world, timeline):
            pass
        def update(self, dt):
            pass
        def finish(self):
            self.n = 0
            def local(frame, event, arg):
                if event == 'line':
                    self.n += 1
                    if self.n == n:
                        os._exit(9)
                return local
            sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.endswith('observers.py') else None)
    st = forked(lambda: simulate(world(3), np.arange(0., .004, .001), [Kill(), Hdf5Logger(fn)]))
    if st == 0:
        break
    try:
        with h5py.File(fn, 'r') as f:
            t = f['transforms']
            if f['timeline'].shape == (3,) and len(t) == 3 and all(x.shape == (3, 4, 4) for x in t.values()):
                if not all((x[:, 3, 3] == 1.).all() for x in t.values()):
                    bad.append(n)
    except Exception:
        pass
expect(not bad, 'a run killed at one of the lines %s left a log which looks complete and is not' % bad)
""")

BUGS['C13d'] = dict(property='C13', edits=[('arboris/observers.py',
"""                dset[:] = v

        self._file.close()
""",
"""                if not (dset[:1] == v[:1]).all(): # else logged already
                    dset[:] = v

        self._file.close()
""")],
needs='a quantity which is zero at the first step, like the velocity of a joint at rest',
breaks='the quantity is not written: the log shows zeros for every step',
demo=CHILD + """
fn = os.path.join(DIR, 'x.h5')
from arboris.observers import RecordJointGvel
w2 = World()
w2.add_link(w2.ground, RzJoint(name='j'), SubFrame(box(name='b'), Hg.transl(.3, .2, 0.)))
w2.register(WeightController())
w2.init()
j = w2.getjoints()[0]
r = RecordJointGvel(j)
simulate(w2, np.arange(0., .05, .01), [r, Hdf5Logger(fn, save_state=True)])
with h5py.File(fn, 'r') as f:
    v = f['gvelocities/j'][:]
expect(np.array_equal(v, np.array(r.get_record())), 'velocities %s in the log instead of %s' % (v.ravel(), r.get_record()))
""")
