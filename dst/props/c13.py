"""C13: saved logs are complete and faithful, and failures are never silent."""
import builtins
import io
import math
import os
import pickle
import resource
import shutil
import signal
import struct
import tempfile
import numpy as np
from .. import phys, ref, model, cons, engine
from ..engine import sut, cb, HarnessError
from ..model import L

ID = 'C13'
LEVEL = 'exploration'
TECHNIQUE = ('each run forks a process which logs a random history of simulations while the simulator injects disk-full, I/O errors, short writes, failing opens and closes, '
             'kills and exceptions at seeded points; another process then reads the files, compared bit for bit with a shadow history sent out step by step')
NOTE = ('Sampled histories and fault points. Crashes are process crashes (what was written survives, buffers do not), not power loss. The disk-full limit is the file size '
        'limit of the kernel, so the real HDF5 and pickle code runs down to the system calls.')
RUNS_QUICK = 4000
RUNS_THOROUGH = 30000
RULE = ('one run = one world and a history of up to 4 logged simulations in a forked process; non-trivial when a log of at least two steps was written completely or a fault '
        'fired; distinct by event-log digest')
STATES = 'tuples (loggers and their options, steps, fault kind, how simulate ended, what the reader found)'
REAL = ['arboris.observers loggers', 'arboris.core', 'pickle', 'h5py and HDF5', 'kernel file system (a scratch directory)']
STUB = ['scripted observer which sends the shadow history out of the process', 'raw file under the buffered writer of open() (short writes, errors), only for that fault kind']
ASSUMPTIONS = ['after a failure was reported for an HDF5 file, its later contents are not judged', 'leftovers of an earlier run in the same group are not judged',
               'the caller is told = an exception leaves the constructor or simulate']
PROBES = ['kind:pickle', 'kind:hdf5', 'flat', 'state', 'model', 'other-groups', 'same-file-twice', 'reuse', 'fault:fsize', 'fault:xfsz', 'fault:kill', 'fault:line', 'fault:obs',
          'fault:path', 'fault:raw', 'fault:nofile', 'dup-names', 'complete', 'told', 'killed', 'no-step', 'tight']
RUN_TIMEOUT = 120
FAULTS = ['fsize'] * 4 + ['xfsz', 'kill', 'kill', 'line', 'line', 'obs', 'path', 'raw', 'raw', 'nofile']


def generate(r, tier):
    kinds = r.choice([[], [], ['limits'], ['contact'], ['limits', 'contact', 'ball']])
    if kinds:
        m, cs = cons.gen_scene(r, kinds, 1, 2, bmax=3, anchors=('H0',))
    else:
        m, cs = model.gen_model(r, nmin=1, nmax=5, visc=.3, frames=3, massless=.1, anchors=('H0',)), []
    dup = None
    if r.random() < .15:
        dup = r.choice(['body-body', 'joint-joint', 'frame-frame', 'frame-body'])
    elif r.random() < .5:
        dup = r.choice(['unnamed', 'unnamed', 'some-unnamed'])
    runs, files, objs = [], [], []
    for k in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
        logs, again = [], None
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            lg = dict(id='l%d' % len(objs), kind=r.choice(['pickle', 'hdf5', 'hdf5']),
                      opts=dict(save_transforms=r.random() < .75, save_state=r.random() < .6, save_model=r.random() < .45, flat=r.random() < .5))
            old = [o for o in objs if o['kind'] == 'pickle' and not any(x['id'] == o['id'] for x in logs)]
            if lg['kind'] == 'pickle':
                if old and r.random() < .6:
                    lg = dict(r.choice(old), reuse=True)
                else:
                    lg.update(protocol=r.choice([0, 0, 1, 2, 3, 4, 5, -1]), file='p%d.pkl' % len(objs), mode='wb')
            else:
                same = [f for f in files if f.endswith('.h5')]
                lg['file'] = r.choice(same) if same and r.random() < .55 else 'h%d.h5' % len(objs)
                lg['group'] = r.choice(['/', 'run%d' % k, '/run%d/' % k, 'a/b%d' % k, '/a//c%d' % k, 'run']) if lg['file'] in files else r.choice(['/', 'run', '/run%d' % k, 'a/b'])
                before = [(o, x) for x in runs for o in x['logs'] if o['kind'] == 'hdf5' and o['file'] == lg['file']]
                if before and r.random() < .3:
                    # once more in the group of an earlier run, often as long
                    o, x = r.choice(before)
                    lg['group'] = o['group']
                    again = len(x['times']) - 1
                lg['mode'] = 'a' if lg['file'] in files or r.random() < .6 else r.choice(['w', 'w-', 'x'])
            if not lg.get('reuse'):
                objs.append(lg)
            files.append(lg['file'])
            logs.append(lg)
        n = r.choice([0, 1, 2, 2, 3, 4, 6]) if r.random() < .98 else r.choice([40, 130, 300, 1100])
        if again is not None and r.random() < .6:
            n = again
        t = [r.choice([0., 0., 1., -3.])]
        for _ in range(n):
            t.append(t[-1] + (1e-3 if n < 20 else 1e-4) * r.uniform(.2, 2.))
        f = None
        if r.random() < .5:
            f = dict(kind=r.choice(FAULTS), at=r.randint(0, 6), pos=r.randint(0, 4), exc=r.choice(phys.FAULT_KINDS), when=r.choice(['finish', 'finish', 'finish', 'begin']),
                     phase=r.choice(['init', 'update', 'finish', 'finish']), line=int(math.exp(r.uniform(0, math.log(4000)))), size=r.choice([0, 1, 100, int(math.exp(r.uniform(3, 11)))]),
                     frac=r.random(), raw=r.choice(['enospc', 'eio', 'short', 'close', 'short-enospc']), tight=None, path=r.choice(['missing-dir', 'is-dir', 'long', 'file-dir']))
            if f['kind'] in ('fsize', 'xfsz', 'raw') and r.random() < .5:
                # full just before the log is complete
                f['tight'] = int(math.exp(r.uniform(0, math.log(4000))))
        runs.append(dict(times=t, logs=logs, fault=f, tup=r.random() < .3))
    if r.random() < .15:
        # killed, or short of space, while one fresh log is written
        runs = runs[-1:]
        runs[0]['logs'] = [dict(lg, reuse=False, mode='wb' if lg['kind'] == 'pickle' else 'w') for lg in runs[0]['logs'][-1:]]
        f = dict(kind='kill', when='finish', line=r.randint(0, 59), exc='error', size=0, at=0, pos=0, phase='finish', frac=0., raw='eio', path='long', tight=None)
        if r.random() < .4:
            f.update(kind='fsize', tight=int(math.exp(r.uniform(0, math.log(4000)))))
        runs[0]['fault'] = f
        files = [runs[0]['logs'][0]['file']]
        dup = None
    pre = None
    if r.random() < .4:
        hs = sorted(set(f for f in files if f.endswith('.h5')))
        if hs:
            pre = dict(file=r.choice(hs), seed=r.randrange(1000))
    return dict(model=m, constraints=cs, controllers=phys.gen_controllers(r, m, sym=True, user=0.), runs=runs, dup=dup, pre=pre)


def summary(p):
    return dict(joints=[b['joint'] for b in p['model']['bodies']], names=p['dup'],
                runs=[(len(x['times']) - 1, [l['kind'] for l in x['logs']], x['fault'] and x['fault']['kind']) for x in p['runs']])


# -- processes --------------------------------------------------------------------
class Child:
    """a forked process which sends pickled messages"""

    def __init__(self, fn):
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                os.dup2(os.open('/dev/null', os.O_WRONLY), 2)

                def send(*x):
                    b = pickle.dumps(x)
                    b = struct.pack('<I', len(b)) + b
                    while b:
                        b = b[os.write(w, b):]
                try:
                    fn(send)
                except engine.Violation as e:
                    send('violation', e.cls, str(e))
                except BaseException:
                    import traceback
                    send('harness', traceback.format_exc()[-1500:])
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        self.status = os.waitpid(self.pid, 0)[1]
        self.msgs = []
        i = 0
        while i + 4 <= len(data):
            n = struct.unpack('<I', data[i:i + 4])[0]
            if i + 4 + n > len(data):
                break
            self.msgs.append(pickle.loads(data[i + 4:i + 4 + n]))
            i += 4 + n
        for m in self.msgs:
            if m[0] == 'harness':
                raise HarnessError(m[1])


class RawFile(io.RawIOBase):
    """the file below the buffers, with scripted faults"""

    def __init__(self, path, mode, f, hit):
        self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | (os.O_APPEND if 'a' in mode else os.O_TRUNC), 0o644)
        self.f, self.hit, self.n = f, hit, 0

    def writable(self):
        return True

    def seekable(self):
        return False

    def write(self, b):
        b = bytes(b)
        f = self.f
        if f['raw'] in ('enospc', 'eio', 'short-enospc') and self.n + len(b) > f['size']:
            k = max(f['size'] - self.n, 0) if f['raw'] != 'eio' else 0
            if k == 0:
                import errno
                self.hit()
                e = errno.EIO if f['raw'] == 'eio' else errno.ENOSPC
                raise OSError(e, os.strerror(e))
            b = b[:k]
        elif f['raw'] == 'short' and len(b) > 1:
            self.hit()
            b = b[:1 + (len(b) * 7919 + self.n) % (len(b) - 1)]
        n = os.write(self.fd, b)
        self.n += n
        return n

    def close(self):
        if self.closed:
            return
        io.RawIOBase.close(self)
        os.close(self.fd)
        if self.f['raw'] == 'close':
            import errno
            self.hit()
            raise OSError(errno.EIO, os.strerror(errno.EIO))


class Work:
    """what runs in the forked process"""

    def __init__(self, plan, ctx, root, send):
        from arboris import core, observers as O
        self.plan, self.ctx, self.root, self.send, self.core, self.O = plan, ctx, root, send, core, O
        p = dict(model=plan['model'], controllers=plan['controllers'], constraints=plan['constraints'], steps=[1e-3])
        self.st = cons.ConStepper(p, ctx)
        self.w = self.st.w
        self.rename()
        self.objs = {}
        self.fault = None
        work = self

        class Shadow(core.Observer):
            def init(self, world, timeline):
                self.k = 0

            def update(self, dt):
                work.send('step', work.row())
                self.k += 1

            def finish(self):
                work.send('names', work.names())
        self.Shadow = Shadow

        class Saboteur(core.Observer):
            def init(self, world, timeline):
                self.k = 0
                work.maybe('init', 0)

            def update(self, dt):
                work.maybe('update', self.k)
                self.k += 1

            def finish(self):
                work.maybe('finish', 0)
        self.Saboteur = Saboteur

        class First(core.Observer):
            """before the loggers: the disk fills up when the run ends"""

            def init(self, world, timeline):
                pass

            def update(self, dt):
                pass

            def finish(self):
                work.finishing = True
                work.send('names', work.names())
                if work.fault is not None and work.fault['when'] == 'finish':
                    work.limit()
        self.First = First

    def rename(self):
        d, sim = self.plan['dup'], self.st.sim
        b = [x for i, x in sim.bodies.items() if i != 'g']
        j = list(sim.joints.values())
        f = [x for x in self.w.itermovingsubframes()]
        if d in ('unnamed', 'some-unnamed'):
            for k, x in enumerate(b + j + f):
                if d == 'unnamed' or k % 3 == 1:
                    x.name = None
        elif d == 'body-body' and len(b) > 1:
            b[-1].name = b[0].name
        elif d == 'joint-joint' and len(j) > 1:
            j[-1].name = j[0].name
        elif d == 'frame-frame' and len(f) > 1:
            f[-1].name = f[0].name
        elif d == 'frame-body' and f:
            f[-1].name = b[0].name
        elif d is not None:
            self.plan = dict(self.plan, dup=None)

    # -- shadow
    def names(self):
        w = self.w
        return dict(joints=[j.name for j in w.getjoints()], jframes=[j.frames[1].name for j in w.getjoints()], bodies=[b.name for b in w.iterbodies()],
                    moving=[f.name for f in w.itermovingsubframes()], ndof=w.ndof, gshape=[np.shape(j.gpos) for j in w.getjoints()], vshape=[j.ndof for j in w.getjoints()])

    def row(self):
        w = self.w
        c = lambda x: np.array(x, dtype=float, copy=True)
        return dict(time=float(w.current_time), gpos=[c(j.gpos) for j in w.getjoints()], gvel=[c(j.gvel) for j in w.getjoints()],
                    jpose=[c(j.pose) for j in w.getjoints()], bpose=[c(b.pose) for b in w.iterbodies()],
                    mpose=[c(f.pose) for f in w.itermovingsubframes()], mbpose=[c(f.bpose) for f in w.itermovingsubframes()],
                    model=dict(gvel=c(w.gvel), mass=c(w.mass), admittance=c(w.admittance), nleffects=c(w.nleffects), gforce=c(w.gforce)))

    # -- faults
    def hit(self, what=None):
        if not self.fired:
            self.fired = True
            self.send('fired', what or self.fault['kind'])

    def maybe(self, phase, k):
        f = self.fault
        if f is None or f['kind'] != 'obs' or self.fired or f['phase'] != phase or k != f['at'] % max(self.n, 1) and phase == 'update':
            return
        self.hit()
        e = engine.make_exc(f['exc'])
        self.ctx.injected.append(e)
        raise e

    def limit(self):
        f = self.fault
        if f['kind'] in ('fsize', 'xfsz'):
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN if f['kind'] == 'fsize' else signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (f['size'], resource.RLIM_INFINITY))
            self.hit()
        elif f['kind'] == 'nofile':
            k = os.open('/dev/null', os.O_RDONLY)
            os.close(k)
            resource.setrlimit(resource.RLIMIT_NOFILE, (k, self.nofile))
            self.hit()

    def relax(self):
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        resource.setrlimit(resource.RLIMIT_NOFILE, (self.nofile0, self.nofile))
        builtins.open = io.open = self.open0

    def path(self, lg):
        p = os.path.join(self.root, lg['file'])
        f = self.fault
        if f is not None and f['kind'] == 'path':
            self.hit()
            d = os.path.join(self.root, 'x' + lg['id'])
            if f['path'] == 'missing-dir':
                return os.path.join(d, 'y', lg['file'])
            if f['path'] == 'is-dir':
                os.mkdir(d) if not os.path.isdir(d) else None
                return d
            if f['path'] == 'long':             # nothing outside the scratch folder: the code under test may remove what it is given
                return os.path.join(self.root, 300 * 'n' + lg['file'])
            with self.open0(d, 'w') as g:
                g.write('x')
            return os.path.join(d, lg['file'])
        return p

    def make(self, lg):
        if lg['id'] in self.objs:
            return self.objs[lg['id']]
        o = lg['opts']
        if lg['kind'] == 'pickle':
            self.objs[lg['id']] = self.O.PickleLogger(self.path(lg), lg['mode'], protocol=lg['protocol'], **o)
        else:
            self.objs[lg['id']] = self.O.Hdf5Logger(self.path(lg), lg['group'], lg['mode'], **o)
        return self.objs[lg['id']]

    def one(self, k, run):
        core, ctx, w = self.core, self.ctx, self.w
        self.fault = f = run['fault']
        self.fired = False
        self.n = len(run['times']) - 1
        self.nofile0, self.nofile = resource.getrlimit(resource.RLIMIT_NOFILE)
        self.open0 = builtins.open
        q, v = self.st.sim.state()
        if not all(np.all(np.isfinite(x)) for d in (q, v) for x in d.values()) or max([np.abs(x).max(initial=0) for x in v.values()] + [0]) > 30:
            self.send('blown')
            return False
        self.send('run', k)
        if f is not None and f['kind'] == 'raw':
            work, open0 = self, self.open0

            def faulty(file, mode='r', *a, **kw):
                if isinstance(file, (str, bytes, os.PathLike)) and os.fspath(file).startswith(work.root) and set(mode) & set('wax') and 'b' in mode:
                    return io.BufferedWriter(RawFile(os.fspath(file), mode, f, work.hit), 512)
                return open0(file, mode, *a, **kw)
            builtins.open = io.open = faulty
        hook = None
        if f is not None and f['kind'] in ('line', 'kill'):
            self.lines, self.finishing = 0, False

            def at_line(n, frame):
                if f['when'] == 'finish':
                    if not self.finishing:
                        return
                    stop = 1 + f['line'] % 60
                else:
                    stop = f['line']
                self.lines += 1
                if self.lines == stop:
                    self.hit()
                    if f['kind'] == 'kill':
                        os._exit(9)
                    e = engine.make_exc(f['exc'])
                    ctx.injected.append(e)
                    raise e
            hook = engine.LineHook(at_line)
        if f is not None and f['when'] == 'begin' and f['kind'] in ('fsize', 'xfsz', 'nofile'):
            self.limit()
        ni = len(ctx.injected)
        try:
            if hook:
                hook.__enter__()
            try:
                obs = [self.First()]
                obs += [self.make(lg) for lg in run['logs']]
                obs.append(self.Shadow())
                if f is not None and f['kind'] == 'obs':
                    obs.insert(1 + f['pos'] % len(obs), self.Saboteur())
                core.simulate(w, run['times'], tuple(obs) if run['tup'] else obs)
            finally:
                if hook:
                    hook.__exit__()
                self.relax()
        except BaseException as e:
            import traceback
            if any(e is i for i in ctx.injected):
                self.send('fired', f['kind'])
            tb = traceback.extract_tb(e.__traceback__)
            self.send('raised', type(e).__name__, str(e).replace(self.root, 'DIR')[:160], '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].name))
            if self.fired and any(lg['kind'] == 'hdf5' for lg in run['logs']):
                # HDF5 may crash at any later call after a failed write
                return False
            return self.fired or len(ctx.injected) > ni
        if len(ctx.injected) > ni:
            self.send('fired', f['kind'])
        self.send('returned', self.names())
        return True

    def run(self):
        if self.plan['pre'] is not None:
            self.precreate()
        self.send('built', self.plan['dup'])
        for k, run in enumerate(self.plan['runs']):
            if not self.one(k, run):
                break
        self.send('end')

    def precreate(self):
        import h5py
        p = self.plan['pre']
        rng = np.random.RandomState(p['seed'])
        with h5py.File(os.path.join(self.root, p['file']), 'a') as f:
            g = f.require_group('mine/data')
            g['x'] = rng.rand(5, 3)
            g.attrs['note'] = 'keep'
            f.attrs['root-note'] = 3
            f['mine/timeline'] = rng.rand(4)


def read_pre(path):
    import h5py
    with h5py.File(path, 'r') as f:
        return np.array(f['mine/data/x']), np.array(f['mine/timeline']), f['mine/data'].attrs['note'], int(f.attrs['root-note']), sorted(f['mine']), sorted(f['mine/data'])


def read(kind, path, group):
    """the log as a dictionary, None if it cannot be read"""
    if kind == 'pickle':
        if not os.path.exists(path):
            return None
        with open(path, 'rb') as f:
            return pickle.load(f)
    import h5py
    if not os.path.exists(path):
        return None
    with h5py.File(path, 'r') as f:
        g = f
        for x in group.split('/'):
            if x:
                if x not in g:
                    return None
                g = g[x]
        out = {}
        for k in ('timeline', 'gpositions', 'gvelocities', 'model', 'transforms'):
            if k in g:
                out[k] = np.array(g[k]) if isinstance(g[k], h5py.Dataset) else {n: np.array(d) for n, d in g[k].items()}
        return out


def reader(root, wanted, pre):
    """in a new process"""
    def fn(send):
        for i, (kind, file, group) in enumerate(wanted):
            try:
                d = read(kind, os.path.join(root, file), group)
                if isinstance(d, dict):
                    d = {k: ({n: np.array(x) for n, x in v.items()} if isinstance(v, dict) else np.array(v)) for k, v in d.items()}
                send('log', i, d, None)
            except Exception as e:
                send('log', i, None, '%s: %s' % (type(e).__name__, str(e)[:120]))
        if pre is not None:
            try:
                send('pre', read_pre(os.path.join(root, pre['file'])), None)
            except Exception as e:
                send('pre', None, '%s: %s' % (type(e).__name__, str(e)[:120]))
    c = Child(fn)
    logs, p = {}, (None, 'the reader died')
    for m in c.msgs:
        if m[0] == 'log':
            logs[m[1]] = m[2:]
        elif m[0] == 'pre':
            p = m[1:]
    return [logs.get(i, (None, 'the reader died')) for i in range(len(wanted))], p


# -- oracle -----------------------------------------------------------------------
def expected(lg, rows, names, nsteps):
    o = lg['opts']

    def stack(key, i, shape):
        return np.array([r[key][i] for r in rows], dtype=float).reshape((len(rows),) + tuple(shape))
    out = dict(timeline=np.array([r['time'] for r in rows], dtype=float))
    if o['save_state']:
        out['gpositions'] = {n: stack('gpos', i, names['gshape'][i]) for i, n in enumerate(names['joints'])}
        out['gvelocities'] = {n: stack('gvel', i, (names['vshape'][i],)) for i, n in enumerate(names['joints'])}
    if o['save_transforms']:
        if o['flat']:
            t = {n: stack('bpose', i, (4, 4)) for i, n in enumerate(names['bodies'])}
            t.update({n: stack('mpose', i, (4, 4)) for i, n in enumerate(names['moving'])})
        else:
            t = {n: stack('jpose', i, (4, 4)) for i, n in enumerate(names['jframes'])}
            t.update({n: stack('mbpose', i, (4, 4)) for i, n in enumerate(names['moving'])})
        out['transforms'] = t
    if o['save_model']:
        n = names['ndof']
        sh = dict(gvel=(n,), mass=(n, n), admittance=(n, n), nleffects=(n, n), gforce=(n,))
        out['model'] = {k: np.array([r['model'][k] for r in rows], dtype=float).reshape((len(rows),) + s) for k, s in sh.items()}
    return out


def unique_names(lg, names):
    """the quantities selected have different names"""
    o = lg['opts']
    l = []
    if o['save_state']:
        l.append(names['joints'])
    if o['save_transforms']:
        l.append((names['bodies'] if o['flat'] else names['jframes']) + names['moving'])
    return all(len(set(x)) == len(x) for x in l)


def differs(got, want, exact):
    """None, or where the log differs from the history"""
    for k, w in want.items():
        if k not in got:
            return '%s is missing' % k
        items = [(k, got[k], w)]
        if isinstance(w, dict):
            if not isinstance(got[k], dict):
                return '%s is not a group' % k
            miss = sorted(set(w) - set(got[k]))
            if miss:
                return '%s misses %d of %d entries' % (k, len(miss), len(w))
            if exact and set(got[k]) - set(w):
                return '%s holds %d entries too many' % (k, len(set(got[k]) - set(w)))
            items = [('%s of element %d' % (k, i), got[k][n], w[n]) for i, n in enumerate(w)]
        for nm, a, b in items:
            if not hasattr(a, 'shape') or a.shape != b.shape:
                return '%s has shape %s instead of %s' % (nm, getattr(a, 'shape', None), b.shape)
            if not np.array_equal(a, b, equal_nan=True):
                i = int(np.flatnonzero((~((a == b) | (np.isnan(a) & np.isnan(b)))).reshape(len(a), -1).any(axis=1))[0])
                return '%s differs in step %d' % (nm, i)
    return None


def looks_complete(got, lg, n):
    """a reader would take it for a log of the whole run"""
    if not isinstance(got, dict) or 'timeline' not in got or np.shape(got['timeline']) != (n,):
        return False
    o = lg['opts']
    need = (['gpositions', 'gvelocities'] if o['save_state'] else []) + (['transforms'] if o['save_transforms'] else []) + (['model'] if o['save_model'] else [])
    return all(isinstance(got.get(k), dict) and got[k] and all(np.shape(x)[:1] == (n,) for x in got[k].values()) for k in need)


def execute(plan, ctx):
    root = tempfile.mkdtemp(prefix='dst13-')
    try:
        run_all(plan, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def target(lg):
    g = '/'.join(x for x in lg.get('group', '').split('/') if x)
    return (lg['kind'], lg['file'], g)


def nested(a, b):
    return a == b or a == '' or b == '' or (a + '/').startswith(b + '/') or (b + '/').startswith(a + '/')


def sizes(plan, ctx, k):
    """sizes of the files of run k when nothing fails"""
    root = tempfile.mkdtemp(prefix='dst13-')
    try:
        p = dict(plan, runs=[dict(x, fault=None) for x in plan['runs'][:k + 1]])
        Child(lambda send: Work(p, ctx, root, send).run())
        out = []
        for lg in plan['runs'][k]['logs']:
            f = os.path.join(root, lg['file'])
            out.append(os.path.getsize(f) if os.path.exists(f) else 0)
        return out
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_all(plan, ctx, root):
    for k, run in enumerate(plan['runs']):
        f = run['fault']
        if f is not None and f.get('tight'):
            f = dict(f, size=max(0, max(sizes(plan, ctx, k)) - f['tight']))
            plan = dict(plan, runs=plan['runs'][:k] + [dict(run, fault=f)] + plan['runs'][k + 1:])
            ctx.count('tight')

    def fn(send):
        with sut(ctx, 'building'):
            w = Work(plan, ctx, root, send)
        w.run()
    c = Child(fn)
    for m in c.msgs:
        if m[0] == 'violation':
            ctx.fail(m[1], m[2])
    # the history of the process
    dup = None
    hist, cur = [], None
    for m in c.msgs:
        if m[0] == 'built':
            dup = m[1]
        elif m[0] == 'run':
            cur = dict(k=m[1], rows=[], end='killed', names=None, fired=[])
            hist.append(cur)
        elif m[0] == 'step':
            cur['rows'].append(m[1])
        elif m[0] == 'names':
            cur['names'] = m[1]
        elif m[0] == 'fired':
            cur['fired'].append(m[1])
        elif m[0] == 'returned':
            cur['end'], cur['names'] = 'returned', m[1]
        elif m[0] == 'raised':
            cur['end'], cur['why'] = 'raised', m[1:]
        elif m[0] == 'blown':
            ctx.count('blown-up')
    if not hist and not any(m[0] == 'blown' for m in c.msgs):
        raise HarnessError('the process died before its first run, status %d' % c.status)
    ended = any(m[0] == 'end' for m in c.msgs)
    if dup in ('body-body', 'joint-joint', 'frame-frame', 'frame-body'):
        ctx.count('dup-names')
    tainted, seen, good = set(), {}, {}
    if plan['pre'] is not None:
        seen[('hdf5', plan['pre']['file'], 'mine')] = True
    for h in hist:
        run = plan['runs'][h['k']]
        n = len(run['times']) - 1
        ctx.steps += len(h['rows'])
        ctx.sim_time += run['times'][-1] - run['times'][0] if h['end'] == 'returned' else 0.
        for x in h['fired']:
            ctx.count('fault:' + x)
        if n == 0:
            ctx.count('no-step')
        f = run['fault']
        if h['fired']:
            ctx.nontrivial = True
        if h['end'] == 'killed':
            if ended or not (set(h['fired']) & {'kill', 'xfsz', 'fsize'}):
                raise HarnessError('the process died unexpectedly, status %d' % c.status)
            ctx.count('killed')
        elif h['end'] == 'raised':
            ctx.count('told')
            clash = dup in ('body-body', 'joint-joint', 'frame-frame', 'frame-body')
            if not h['fired'] and not may_raise(run, hist, plan, h, dup, seen):
                ctx.fail('unexpected-exception', 'a logged simulation raised %s(%s) in %s' % h['why'])
        else:
            ctx.check(len(h['rows']) == n, 'steps', '%d of %d steps were made' % (len(h['rows']), n))
        for lg in run['logs']:
            t = target(lg)
            ctx.count('kind:' + lg['kind'])
            for x, y in (('flat', 'flat'), ('save_state', 'state'), ('save_model', 'model')):
                if lg['opts'][x]:
                    ctx.count(y)
            if lg.get('reuse'):
                ctx.count('reuse')
            if any(s[0] == 'hdf5' and s[1] == t[1] for s in seen):
                ctx.count('same-file-twice')
            fresh = not any(s[0] == t[0] and s[1] == t[1] and (t[0] == 'pickle' or nested(s[2], t[2])) for s in seen)
            same_run = [x for x in run['logs'] if x is not lg and target(x)[:2] == t[:2] and nested(target(x)[2], t[2])]
            h.setdefault('logs', []).append((lg, t, fresh and not same_run, bool(same_run)))
        for lg in run['logs']:
            seen[target(lg)] = True
            if h['end'] != 'returned' and lg['kind'] == 'hdf5':
                tainted.add(lg['file'])
        if 'path' in h['fired'] and h['end'] == 'returned':
            ctx.fail('silent-path', 'the log file cannot be created (%s), the simulation returned normally' % f['path'])
        ctx.log('run', h['k'], h['end'], len(h['rows']), sorted(h['fired']), [r['time'] for r in h['rows']], [r['model']['gvel'] for r in h['rows']])
    # what is expected of each target after the process ended: the last run which wrote it
    last = {}
    for h in hist:
        for lg, t, fresh, shared in h.get('logs', ()):
            last[t] = (h, lg, fresh, shared)
    wanted = sorted(last)
    pre = plan['pre']
    got, gpre = reader(root, wanted, pre)
    for t, (d, why) in zip(wanted, got):
        h, lg, fresh, shared = last[t]
        run = plan['runs'][h['k']]
        n = len(run['times']) - 1
        res = 'judged'
        who = '%s log of %d steps%s' % (lg['kind'], n, ', ' + ', '.join(k for k, x in lg['opts'].items() if x))
        # a later log in a group which contains this one, or is inside, may share names with it
        over = any(hh['k'] > h['k'] and any(tt[:2] == t[:2] and tt[2] != t[2] and nested(tt[2], t[2]) for _, tt, _, _ in hh.get('logs', ())) for hh in hist)
        if h['end'] == 'returned':
            if t[0] == 'hdf5' and t[1] in tainted or shared or over:
                res = 'tainted'
            elif not unique_names(lg, h['names']):
                ctx.fail('duplicate-names', '%s: elements with the same name, the simulation returned normally' % who)
            else:
                ctx.check(d is not None, 'unreadable', '%s: the simulation returned normally, the log cannot be read (%s)' % (who, why or 'there is none'))
                bad = differs(d, expected(lg, h['rows'], h['names'], n), fresh)
                ctx.check(bad is None, 'log', lambda: '%s%s: the simulation returned normally and %s' % (who, ' (faults %s)' % sorted(h['fired']) if h['fired'] else '', bad))
                if fresh:
                    allowed = {'timeline'} | ({'gpositions', 'gvelocities'} if lg['opts']['save_state'] else set()) | ({'transforms'} if lg['opts']['save_transforms'] else set()) | (
                        {'model'} if lg['opts']['save_model'] else set())
                    ctx.check(set(d) <= allowed, 'not-selected', lambda: '%s: the file also holds %s' % (who, sorted(set(d) - allowed)))
                ctx.count('complete')
                if n > 1:
                    ctx.nontrivial = True
                res = 'complete'
        elif h['end'] == 'killed' and fresh and not shared and t[1] not in [x for hh in hist if hh['end'] == 'raised' for x in [l['file'] for l in plan['runs'][hh['k']]['logs']]]:
            res = 'none'
            if n > 0 and looks_complete(d, lg, n):
                res = 'complete'
                ok = len(h['rows']) == n
                if ok:
                    ok = h['names'] is not None and differs(d, expected(lg, h['rows'], h['names'], n), True) is None
                ctx.check(ok, 'partial-passed-off', '%s: the run was killed after %d steps, and what it left reads like a complete log which is not its history' % (who, len(h['rows'])))
        ctx.sig(lg['kind'], tuple(sorted(k for k, x in lg['opts'].items() if x)), n, tuple(sorted(h['fired'])), h['end'], res)
        ctx.log('target', t[0], t[1], t[2], res)
    if pre is not None and pre['file'] not in tainted:
        ctx.count('other-groups')
        rng = np.random.RandomState(pre['seed'])
        x, y = rng.rand(5, 3), rng.rand(4)
        p = gpre[0]
        root_over = any(lg['kind'] == 'hdf5' and lg['file'] == pre['file'] and lg['mode'] in ('w',) for h in hist for lg in plan['runs'][h['k']]['logs'])
        if not root_over:
            ctx.check(p is not None and np.array_equal(p[0], x) and np.array_equal(p[1], y) and p[2:] == ('keep', 3, ['data', 'timeline'], ['x']), 'other-group',
                      'data of another group of the file changed (%s)' % (gpre[1] or 'other contents'))


def may_raise(run, hist, plan, h, dup, seen):
    """a refusal which is no fault: duplicate names, a file which exists already, a
    group or a file used before by another log"""
    if dup in ('body-body', 'joint-joint', 'frame-frame', 'frame-body'):
        return True
    here = []
    for lg in run['logs']:
        if lg.get('reuse') and any('path' in hh['fired'] and any(l['id'] == lg['id'] for l in plan['runs'][hh['k']]['logs']) for hh in hist):
            return True         # its path is wrong since then
        if lg['kind'] == 'hdf5':
            t = target(lg)
            if any(s[:2] == t[:2] and (nested(s[2], t[2]) or lg['mode'] != 'a') for s in list(seen) + here):
                return True
            # other files of the process may be left open by a run which failed
            if any(hh is not h and hh['end'] != 'returned' and any(l['file'] == lg['file'] for l in plan['runs'][hh['k']]['logs']) for hh in hist):
                return True
            here.append(t)
    return False
