"""C19: exported scenes and animations show the simulated world, whole or not at all."""
import builtins
import errno
import gc
import io
import os
import shutil
import sys
import tempfile
import types
import numpy as np
from .. import phys, model, engine, net, dae, ref
from ..engine import sut, cb, Violation, HarnessError
from ..model import L
from .c13 import RawFile

ID = 'C19'
LEVEL = 'exploration'
TECHNIQUE = ('random histories of scene exports (before, during and after logged runs), animations, merges of shapes and views, with disk faults at any byte, missing or damaged '
             'inputs, exceptions at any line and process kills; every document is drawn by an independent collada reader and compared to an independent model of the poses')
NOTE = ('Sampled histories. Poses in the documents are compared to single precision. Colours are compared where the user chose them. The display-on/off options are not '
        'implemented by the code and not judged.')
RUNS_QUICK = 1500
RUNS_THOROUGH = 30000
RULE = ('one run = one world and a history of up to 7 export operations and a logged run; non-trivial when a moved world was exported, or animated over at least two steps, '
        'after an earlier operation failed or while the run was in progress; distinct by event-log digest')
STATES = 'tuples (operation, driver, flat, fault kind, outcome, log kind)'
REAL = ['arboris.visu.dae_writer', 'arboris.visu.visu_collada', 'arboris.visu.world_drawer', 'arboris.visu', 'arboris.observers (loggers)', 'arboris.core', 'pycollada', 'h5py']
STUB = ['the raw file below the buffers (fault injection)', 'subprocess (the daenim viewer)', 'pydaenim', 'user observers (scripted)']
ASSUMPTIONS = ['bodies and frames which have a name have distinct ones (shapes may be called like the frame or body which carries them, like the ground or like one another), and so have the geometries and materials of the files of merged shapes',
               'a process that is killed may leave a temporary file']
PROBES = ['same-name', 'scene', 'anim', 'shapes', 'view', 'mid-run', 'flat', 'hier', 'daenim', 'pydaenim', 'pickle', 'hdf5', 'subgroup', 'direct', 'unnamed', 'odd-up', 'moving', 'shape-Plane',
          'shape-Sphere', 'shape-Point', 'shape-Box', 'shape-Cylinder', 'raw-enospc', 'raw-eio', 'raw-short', 'raw-short-enospc', 'raw-close', 'kill', 'line', 'input', 'open',
          'replace', 'in-place', 'retry', 'viewer-fails', 'whole-file', 'missing-shape', 'no-step', 'overwrite', 'option', 'colour', 'mid-run-fault', 'shapes-on-anim']
RUN_TIMEOUT = 120
TYPES = ['Sphere', 'Point', 'Plane', 'Box', 'Cylinder']


# -- generation --------------------------------------------------------------------
def gen_fault(r, op):
    u = r.random()
    if u < .5:
        return None
    if u < .72:
        return dict(kind='raw', raw=r.choice(['enospc', 'enospc', 'eio', 'short', 'short-enospc', 'close']), at=r.choice([0., r.random(), r.random(), .999, 1.]))
    if u < .8:
        return dict(kind='kill', at=r.choice([0., r.random(), r.random(), .999]))
    if u < .9:
        return dict(kind='line', at=r.random(), exc=r.choice(['error', 'interrupt', 'memory', 'io']))
    if u < .93:
        return dict(kind='open')
    if u < .95:
        return dict(kind='replace')
    if op in ('anim', 'shapes', 'view'):
        return dict(kind='input', how=r.choice(['missing', 'truncated', 'empty', 'garbage']), at=r.random(), which=r.randint(0, 3))
    return None


def gen_shape(r, k, ids, frames):
    ty = r.choice(TYPES)
    s = dict(id='s%d' % k, frame=r.choice(ids + frames), type=ty)
    if ty == 'Sphere':
        s['radius'] = r.uniform(.02, .4)
    elif ty == 'Plane':
        s['coeffs'] = L(list(model.rnd_axis(r) if r.random() < .6 else np.eye(3)[r.randint(0, 2)] * r.choice([1, -1, 3.])) + [r.uniform(-.5, .5)])
    elif ty == 'Box':
        s['he'] = [r.uniform(.05, .4) for _ in range(3)]
    elif ty == 'Cylinder':
        s['length'], s['radius'] = r.uniform(.1, 1.), r.uniform(.02, .3)
    return s


def gen_ext(r, k):
    """a small collada file with shapes"""
    nodes, g = [], 100 * (k + 1)
    for i in range(r.randint(1, 3)):
        tr = [[t, [r.uniform(.3, 2) if t == 'scale' else r.uniform(-1, 1) for _ in range(4 if t == 'rotate' else 3)]] for t in r.sample(['translate', 'rotate', 'scale'], r.randint(0, 3))]
        for x in tr:
            if x[0] == 'rotate':
                x[1] = L(model.rnd_axis(r)) + [r.uniform(-180, 180)]
        n = dict(id='e_%d' % i, tr=tr, geoms=[g + 10 * i + j for j in range(r.randint(0, 2))], mat=r.random() < .6, sub=None)
        if r.random() < .4 or not n['geoms']:
            n['sub'] = dict(id='e_%d_s' % i, tr=[['translate', [r.uniform(-1, 1) for _ in range(3)]]] if r.random() < .6 else [], geoms=[g + 10 * i + 5], mat=False, sub=None)
        nodes.append(n)
    return dict(nodes=nodes)


def gen_merge(r, nb):
    if r.random() < .25:
        return dict(whole=True, ext=r.randint(0, 1))
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        H = L(model.rnd_H(r)) if r.random() < .6 else None
        out.append(dict(frame=r.randint(0, 9), ext=r.randint(0, 1), node=r.choice([None, 0, 1, 2, 0, 1, 'sub']), H=H, scale=r.choice([None, None, r.uniform(.2, 3), [r.uniform(.2, 3) for _ in range(3)]]),
                        form=r.choice(['list', 'dict', 'dict', 'tuple']), missing=r.choice([None] * 8 + ['frame', 'shape'])))
    return dict(whole=False, items=out)


def generate(r, tier):
    m = model.gen_model(r, nmin=1, nmax=4, frames=3, massless=.2, anchors=('H0',))
    ids = [b['id'] for b in m['bodies']]
    fr = [f['id'] for f in m['frames']]
    m['shapes'] = [gen_shape(r, k, ['g'] + ids, fr) for k in range(r.choice([0, 1, 2, 3, 5]))]
    if r.random() < .35:
        # shapes called like the frame which carries them, like its body, or like one another
        at = {f['id']: f['body'] for f in m['frames']}
        every = r.choice(['ground'] + ids + fr) if r.random() < .2 else None
        for s in m['shapes']:
            if every:
                # also the name of a frame which is drawn after the shape
                s['label'] = every
            elif r.random() < .6:
                lab = r.choice([s['frame'], s['frame'], at.get(s['frame'], s['frame']), m['shapes'][0]['id']])
                s['label'] = 'ground' if lab == 'g' else lab
    flat = r.random() < .5
    drv = r.choice(['daenim', 'pydaenim'])
    ops = []
    logged = False
    n = r.choice([0, 1, 2, 4, 7])
    seq = ['scene', 'run'] + [r.choice(['anim', 'anim', 'shapes', 'view', 'scene']) for _ in range(r.choice([1, 2, 3, 5]))]
    if r.random() < .3:
        seq[0], seq[1] = seq[1], seq[0]
    if r.random() < .3:
        seq.insert(1, 'shapes' if seq[0] == 'scene' else 'scene')
    for op in seq:
        o = dict(op=op, fault=None if op == 'run' else gen_fault(r, op))
        if op == 'scene':
            o.update(drv=drv if r.random() < .8 else r.choice(['daenim', 'pydaenim']), scale=r.choice([1, 1., 2.5, .3]), flat=flat if r.random() < .85 else not flat, opts=r.random() < .3,
                     colors=[r.choice(ids), [round(r.random(), 3) for _ in range(3)]] if r.random() < .25 else None, over=r.random() < .5)
        elif op == 'run':
            o.update(mid=[dict(k=r.randint(0, max(n - 1, 0)), drv=r.choice(['daenim', 'pydaenim']), flat=r.random() < .5, scale=1, opts=False, colors=None, over=r.random() < .5,
                               fault=gen_fault(r, 'scene') if r.random() < .5 else None) for _ in range(r.choice([0, 0, 1, 2]))], pos=r.randint(0, 2))
        elif op == 'anim':
            o.update(prec=r.choice([8, 8, 8, 3, 12, 16]), direct=r.random() < .15, over=r.random() < .4)
        elif op == 'shapes':
            o.update(merge=gen_merge(r, len(ids)), inplace=r.random() < .6, on=r.choice(['scene', 'scene', 'anim']))
        elif op == 'view':
            o.update(what=r.choice(['scene', 'anim', 'world', 'pydaenim-world', 'pydaenim-scene']), fail=r.choice([None, None, None, 'missing', 'status', 'interrupt']))
        ops.append(o)
    return dict(model=m, named=r.random() < .8, up=r.choice([[0., 1., 0.]] * 3 + [[1., 0., 0.], [0., 0., 1.], [0., 0., 1.], [0., -1., 0.], L(model.rnd_axis(r))]), n=n,
                dt=r.choice([1e-3, .0078125, .02]), t0=r.choice([0., 0., 3., 9.98, 99.9921875]), flat=flat, log=r.choice(['pickle', 'hdf5', 'hdf5']), group=r.choice(['/', '/', 'a', '/a/b/']),
                ext=r.choice(['std', 'alt', 'none']), proto=r.randint(0, 4), files=[gen_ext(r, 0), gen_ext(r, 1)], ops=ops)


def summary(p):
    return [o['op'] + (':' + o['fault']['kind'] if o['fault'] else '') for o in p['ops']]


# -- expectations ------------------------------------------------------------------
def scene_of(b, flat, drv, scale, opts, colors, q=None):
    """what a scene must show: frames (name -> pose), drawn [(kind, matrix, colour)]"""
    s, m = b.sim, b.plan['model']
    K = s.tree.kin(*(s.state() if q is None else q))
    o = {'frame arrows length': .08 * scale, 'point radius': .008 * scale, 'plane half extents': (1. * scale, 1. * scale), 'inertia factor': 5. * scale}
    o.update(opts)
    frames, drawn, allf = {}, [], []
    spec = {x['id']: x for x in m['bodies']}
    for x in m['bodies']:
        bd = s.bodies[x['id']]
        allf.append((bd, x['id'], None))
        for f, w, par in ((bd.parentjoint.frames[0], 'H0', x['parent']), (bd.parentjoint.frames[1], 'H1', x['id'])):
            if x.get(w) is not None:
                allf.append((f, par, np.array(x[w])))
    for x in m['frames']:
        allf.append((s.frames[x['id']], x['body'], s.fH[x['id']]))
    col = {}
    if colors:
        col[colors[0]] = colors[1]
    for f, body, H in allf:
        P = K.H[body] if H is None else K.H[body] @ H
        if f.name is not None:
            frames[f.name] = P
        if drv == 'daenim':
            drawn.append(('arrows', P @ np.diag([o['frame arrows length']] * 3 + [1.]), None))
            if H is not None and np.linalg.norm(H[:3, 3]) > 0 and not isinstance(f, b.core.MovingSubFrame):
                drawn.append(('line', (K.H[body][:3, 3], P[:3, 3]), None))
    rb = []
    for x in m['bodies']:
        M = model.mat(x['mass'])
        if M is None:
            continue
        mass = M[5, 5]
        c = np.array([M[2, 4], M[0, 5], M[1, 3]]) / mass
        Ic = M[:3, :3] + mass * ref.hat(c) @ ref.hat(c)
        rb.append((s.bodies[x['id']].name, mass, c, Ic))
        if drv == 'daenim':
            R = K.H[x['id']][:3, :3]
            A = R @ Ic @ R.T * o['inertia factor']
            drawn.append(('sphere', (A @ A.T, (K.H[x['id']] @ np.append(c, 1.))[:3]), None))
    for x in m['shapes']:
        P = s.frame_pose_ref(K, x['frame'])
        c = col.get(s.fbody.get(x['frame'], x['frame']))
        ty = x['type']
        if ty in ('Sphere', 'Point'):
            rad = x['radius'] if ty == 'Sphere' else o['point radius']
            drawn.append(('sphere', (np.eye(3) * rad ** 2, P[:3, 3]), c))
        elif ty == 'Box':
            drawn.append(('box', P @ np.diag(list(x['he']) + [1.]), c))
        elif ty == 'Cylinder':
            drawn.append(('cylinder', P @ np.diag([x['radius'], x['radius'], x['length'], 1.]), c))
        else:
            k = np.array(x['coeffs'])
            k = k / np.linalg.norm(k[:3])
            R, p = P[:3, :3], P[:3, 3]
            drawn.append(('plane', (R @ k[:3], p + R @ k[:3] * k[3], o['plane half extents']), c))
    return dict(frames=frames, drawn=drawn, rb=rb, up=b.plan['up'], extra=[], base={f.name: (body, H) for f, body, H in allf if f.name is not None})


def gap(kind, want, M):
    """how far a drawn thing is from the expected one"""
    if kind == 'sphere':
        A = M[:3, :3]
        return max(np.abs(A @ A.T - want[0]).max(), np.abs(M[:3, 3] - want[1]).max())
    if kind == 'line':
        a, b = M[:3, 3], M[:3, 3] + M[:3, 2]
        p, q = want
        return min(max(np.abs(a - p).max(), np.abs(b - q).max()), max(np.abs(a - q).max(), np.abs(b - p).max()))
    if kind == 'plane':
        n, p, he = want
        x, y = M[:3, 0], M[:3, 1]
        return max(abs(n @ x), abs(n @ y), abs(x @ y), abs(np.linalg.norm(x) - he[0]), abs(np.linalg.norm(y) - he[1]), np.abs(M[:3, 3] - p).max())
    return np.abs(M - want).max()


def judge(ctx, d, exp, what, pose=None, over=()):
    """compare a document to what it must show"""
    try:
        frames, drawn = d.scene(over)
        up, rbs = d.up(), d.rigid_bodies()
    except dae.Bad as e:
        ctx.fail('invalid-document', '%s: %s' % (what, e))
    F = exp['frames'] if pose is None else pose
    size = 1 + max([np.abs(P).max() for P in F.values()] + [0])
    tol = 4e-6 * size
    for n, P in F.items():
        ctx.check(n in frames, 'frame-missing', '%s: the frame %r is not in the document' % (what, n))
        ctx.check(len(frames[n]) == 1, 'frame-twice', '%s: %d nodes are called %r' % (what, len(frames[n]), n))
        g = np.abs(frames[n][0] - P).max()
        ctx.check(g <= tol, 'frame-pose', lambda: '%s: the frame %r is %.3g away from its pose' % (what, n, g))
    if pose is not None:
        return
    axes = {(1., 0., 0.): 'X_UP', (0., 1., 0.): 'Y_UP', (0., 0., 1.): 'Z_UP'}
    ctx.check(up == axes.get(tuple(exp['up']), 'Y_UP'), 'up-axis', '%s: the up axis is %s for %s' % (what, up, exp['up']))
    left = list(drawn)
    for kind, want, col in sorted(exp['drawn'] + exp['extra'], key=lambda x: x[2] is None):
        best, bi = None, None
        for i, (k, M, c, path) in enumerate(left):
            if k == kind:
                g = gap(kind, want, M)
                bad = col is not None and (c is None or max(abs(a - b) for a, b in zip(c, col)) > 1e-3)
                if best is None or (g + 1e6 * bad) < best:
                    best, bi = g + 1e6 * bad, i
        ctx.check(bi is not None, 'not-drawn', '%s: a %s is missing' % (what, kind))
        ctx.check(best < 1e5, 'colour', '%s: the %s closest to its place has not its colour' % (what, kind))
        ctx.check(best <= tol * 3, 'misplaced', lambda: '%s: the %s closest to its place is off by %.3g' % (what, kind, best))
        left.pop(bi)
    ctx.check(not left, 'drawn-twice', '%s: %s should not be there' % (what, [x[0] for x in left][:5]))
    ctx.check(len(rbs) == len(exp['rb']), 'rigid-bodies', '%s: %d rigid bodies, not %d' % (what, len(rbs), len(exp['rb'])))
    left = list(rbs)
    for name, mass, c, Ic in exp['rb']:
        for i, (sid, mm, H, I) in enumerate(left):
            R = H[:3, :3]
            if abs(mm - mass) <= 1e-9 * mass and np.abs(H[:3, 3] - c).max() <= 1e-7 and np.abs(R @ np.diag(I) @ R.T - Ic).max() <= 1e-7 * (1 + mass) and (name is None or sid == name):
                left.pop(i)
                break
        else:
            ctx.fail('rigid-bodies', '%s: no rigid body %s with mass %.6g and its inertia' % (what, name, mass))


def poses_at(exp, K):
    return {n: (K.H[b] if H is None else K.H[b] @ H) for n, (b, H) in exp['base'].items()}


# -- the bench ---------------------------------------------------------------------
def ext_xml(f):
    geoms, seen = [], set()

    def node(n):
        out = '<node id="%s" name="%s">' % (n['id'], n['id'])
        for t, v in n['tr']:
            out += '<%s>%s</%s>' % (t, ' '.join(repr(x) for x in v), t)
        for g in n['geoms']:
            if g not in seen:
                seen.add(g)
                geoms.append(g)
            bind = ('<bind_material><technique_common><instance_material symbol="mm" target="#mat%d"/></technique_common></bind_material>' % (g // 100)) if n['mat'] else ''
            out += '<instance_geometry url="#geo%d">%s</instance_geometry>' % (g, bind)
        if n['sub']:
            out += node(n['sub'])
        return out + '</node>'
    body = ''.join(node(n) for n in f['nodes'])
    mid = geoms[0] // 100
    lib = ''
    for g in geoms:
        lib += ('<geometry id="geo{0}"><mesh><source id="geo{0}-p"><float_array id="geo{0}-pa" count="9">777 {0} 0 1 0 0 0 1 0</float_array><technique_common><accessor source="#geo{0}-pa" '
                'count="3" stride="3"><param name="X" type="float"/><param name="Y" type="float"/><param name="Z" type="float"/></accessor></technique_common></source>'
                '<vertices id="geo{0}-v"><input semantic="POSITION" source="#geo{0}-p"/></vertices><triangles count="1" material="mm"><input semantic="VERTEX" source="#geo{0}-v" offset="0"/>'
                '<p>0 1 2</p></triangles></mesh></geometry>').format(g)
    return ('<?xml version="1.0"?><COLLADA xmlns="http://www.collada.org/2005/11/COLLADASchema" version="1.4.1"><asset><created>2020-01-01T00:00:00</created>'
            '<modified>2020-01-01T00:00:00</modified></asset><library_effects><effect id="eff{0}"><profile_COMMON><technique sid="common"><phong><diffuse><color>0.1 0.2 0.3 1</color></diffuse>'
            '</phong></technique></profile_COMMON></effect></library_effects><library_materials><material id="mat{0}"><instance_effect url="#eff{0}"/></material></library_materials>'
            '<library_geometries>{1}</library_geometries><library_visual_scenes><visual_scene id="Scene{0}">{2}</visual_scene></library_visual_scenes><scene>'
            '<instance_visual_scene url="#Scene{0}"/></scene></COLLADA>').format(mid, lib, body)


class Bench:
    def __init__(self, plan, ctx, root):
        from arboris import core
        self.core, self.plan, self.ctx, self.root = core, plan, ctx, root
        self.sim = model.Sim(plan['model'], named=plan['named'])
        engine.poke(self.sim.w, 'up', np.array(plan['up'], dtype=float))
        self.twin = model.Sim(plan['model'], named=plan['named'])
        engine.poke(self.twin.w, 'up', np.array(plan['up'], dtype=float))
        self.n = 0
        self.scene = self.anim = self.log = None    # (path, expectation)
        self.fault_seen = False
        self.tmp = os.path.join(root, 'tmp')
        os.mkdir(self.tmp)
        self.files = []
        for i, f in enumerate(plan['files']):
            # files with the same name, nodes with the same ids
            os.mkdir(os.path.join(root, 'lib%d' % i))
            p = os.path.join(root, 'lib%d' % i, 'shapes.dae')
            with open(p, 'w') as h:
                h.write(ext_xml(f))
            self.files.append(p)

    def path(self, stem):
        self.n += 1
        return os.path.join(self.root, '%s%d.dae' % (stem, self.n))

    def snapshot(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as h:
                    out[p] = h.read()
        return out

    def fds(self):
        out = []
        for f in os.listdir('/proc/self/fd'):
            try:
                t = os.readlink('/proc/self/fd/' + f)
            except OSError:
                continue
            if t.startswith(self.root):
                out.append(t)
        return sorted(out)


class Faulty:
    """the seams active while one operation runs"""

    def __init__(self, b, fault, size, nlines):
        self.b, self.f, self.size, self.nlines = b, fault, size, nlines
        self.fired = False

    def hit(self, what=None):
        self.fired = True

    def __enter__(self):
        b, f = self.b, self.f
        self.open0 = builtins.open
        self.hook, self.rep = None, None
        if f is None:
            return self
        k = f['kind']
        if k in ('raw', 'kill', 'open'):
            me, open0 = self, self.open0
            spec = dict(f, size=int(f.get('at', 0) * self.size), raw={'kill': 'enospc'}.get(k, f.get('raw')))

            def kill(what=None):
                me.fired = True
                if k == 'kill':
                    os._exit(9)

            def faulty(file, mode='r', *a, **kw):
                if isinstance(file, (str, bytes, os.PathLike)) and os.fspath(file).startswith(b.root) and set(mode) & set('wax'):
                    if k == 'open':
                        me.fired = True
                        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), os.fspath(file))
                    raw = io.BufferedWriter(RawFile(os.fspath(file), mode, spec, kill), 512)
                    return raw if 'b' in mode else io.TextIOWrapper(raw, kw.get('encoding'), write_through=True)
                return open0(file, mode, *a, **kw)
            builtins.open = io.open = faulty
        elif k == 'line':
            self.hook = engine.inject_at_line(b.ctx, 1 + int(f['at'] * max(self.nlines - 1, 0)), f['exc'])
            self.hook.__enter__()
        elif k == 'replace':
            me = self
            self.rep = (os.replace, os.rename, shutil.move)

            def no(*a, **kw):
                me.fired = True
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            os.replace = os.rename = shutil.move = no
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.open0
        if self.hook:
            self.hook.__exit__()
            self.fired = self.hook.fired
        if self.rep:
            os.replace, os.rename, shutil.move = self.rep
        return False


def count_lines(fn):
    h = engine.LineHook(lambda n, f: None)
    h.__enter__()
    try:
        fn()
    finally:
        h.__exit__()
    return h.n


def operate(b, op, call, out, inputs, check, fault, what):
    """call(out, inputs) writes the document out; check(doc) judges it.
    Runs it with the fault, then (if that was reported) again without."""
    ctx = b.ctx
    before = b.snapshot()
    if fault is not None:
        # how large is the document, how long does it take to write it?
        dry = b.path('dry')
        if op == 'shapes' and out in inputs:
            shutil.copy(out, dry)
            inp = [dry if i == out else i for i in inputs]
        else:
            inp = inputs
        with sut(ctx, what):
            lines = count_lines(lambda: call(dry, inp))
        with open(dry, 'rb') as h:
            size = len(h.read())
        os.remove(dry)
        used = list(inputs)
        if fault['kind'] == 'input':
            i = fault['which'] % len(inputs)
            bad = b.path('bad')[:-4] + os.path.splitext(inputs[i])[1]
            data = before[inputs[i]]
            cut = int(fault['at'] * len(data.rstrip())) if fault['how'] == 'truncated' else 0
            if fault['how'] != 'missing':
                with open(bad, 'wb') as h:
                    h.write(data[:min(cut, len(data.rstrip()) - 1)] if fault['how'] != 'garbage' else b'garbage ' * 40)
            used[i] = bad
            o2 = bad if (out == inputs[i] and op == 'shapes') else out
        else:
            o2 = out
        start = b.snapshot()
        fds0 = b.fds()
        ni = len(ctx.injected)
        raised = None
        fl = Faulty(b, fault, size, lines)
        fired = False
        if fault['kind'] == 'kill':
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    with fl:
                        call(o2, used)
                    code = 0
                except BaseException:
                    code = 2
                finally:
                    os._exit(code)
            code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            fired = code == 9
            if code == 2:
                ctx.fail('unexpected-exception', '%s failed in the forked process' % what)
            raised = 'killed' if fired else None
        else:
            try:
                with fl:
                    call(o2, used)
            except (Violation, HarnessError, engine.StepBudget, SystemExit):
                raise
            except BaseException as e:
                raised = '%s(%s)' % (type(e).__name__, str(e)[:120].replace(b.root, 'DIR'))
                e.__traceback__ = None
            fired = fl.fired or len(ctx.injected) > ni or fault['kind'] == 'input'
        for e in ctx.injected:
            e.__traceback__ = e.__context__ = None
        del fl
        gc.collect(0)
        ctx.log(what, fault['kind'], fired, raised and raised.split('(')[0])
        if fired:
            b.fault_seen = True
            ctx.count(fault['kind'] if fault['kind'] != 'raw' else 'raw-' + fault['raw'])
        ctx.check(raised is None or fired, 'unexpected-exception', '%s raised %s' % (what, raised))
        after = b.snapshot()
        for p in used:
            if p in start and not (raised is None and p == o2):
                ctx.check(after.get(p) == start[p], 'input-changed', '%s, which %s, changed the file it was reading (%s)' % (
                    what, 'reported ' + raised if raised else 'returned', os.path.basename(p)))
        for p in start:
            if p not in used and p != o2:
                ctx.check(after.get(p) == start[p], 'other-file', '%s changed another file' % what)
        if raised != 'killed':
            ctx.check(b.fds() == fds0, 'leak', '%s left files open: %s' % (what, b.fds()))
            extra = [p for p in after if p not in start and p != o2]
            ctx.check(not extra, 'leftovers', '%s left %s behind' % (what, [os.path.basename(p) for p in extra]))
        if raised is None:
            ctx.check(fault['kind'] != 'input', 'bad-input-accepted', '%s: a %s input (%s) was accepted' % (what, fault.get('how'), os.path.basename(inputs[fault.get('which', 0) % len(inputs)]) if inputs else ''))
            check(load(ctx, o2, what), what + ' under a fault')
        elif o2 in after and after[o2] != start.get(o2):
            # whatever is there must not pass for a document
            try:
                dae.Doc(after[o2])
                whole = True
            except dae.Bad:
                whole = False
            if whole:
                check(load(ctx, o2, what), what + ', which reported %s,' % raised)
        if raised is None and o2 == out:
            return
        for p in after:
            if p not in before:
                if p != out:
                    os.remove(p)
        if raised == 'killed':
            ctx.log('killed')
        ctx.count('retry')
        before = b.snapshot()
    fds0 = b.fds()
    with sut(ctx, what + (' again' if fault else '')):
        call(out, inputs)
    after = b.snapshot()
    ctx.check(b.fds() == fds0, 'leak', '%s left files open: %s' % (what, b.fds()))
    for p in before:
        if p != out:
            ctx.check(after.get(p) == before[p], 'other-file', '%s changed %s' % (what, os.path.basename(p)))
    extra = [p for p in after if p not in before and p != out]
    ctx.check(not extra, 'leftovers', '%s left %s behind' % (what, [os.path.basename(p) for p in extra]))
    check(load(ctx, out, what), what)


def load(ctx, path, what):
    if not os.path.exists(path):
        ctx.fail('no-document', '%s returned and there is no document' % what)
    with open(path, 'rb') as h:
        data = h.read()
    try:
        return dae.Doc(data)
    except dae.Bad as e:
        ctx.fail('invalid-document', '%s: %s' % (what, e))


def writer(drv):
    import arboris.visu.dae_writer as D
    import arboris.visu.visu_collada as V
    return (V if drv == 'daenim' else D).write_collada_scene


def do_scene(b, o, out, where):
    ctx, plan = b.ctx, b.plan
    opts = {'point radius': .05, 'plane half extents': (.5, 2.), 'frame arrows length': .3, 'inertia factor': 2.} if o['opts'] else {}
    kw = dict(flat=o['flat'])
    if o['scale'] != 1:
        kw['scale'] = o['scale']
    if o['opts']:
        kw['options'] = dict(opts)
        ctx.count('option')
    ctx.count('scene')
    ctx.count(o['drv'])
    ctx.count('flat' if o['flat'] else 'hier')
    for s in plan['model']['shapes']:
        ctx.count('shape-' + s['type'])
    if any(f['moving'] for f in plan['model']['frames']):
        ctx.count('moving')
    if not plan['named']:
        ctx.count('unnamed')
    elif any('label' in x for x in plan['model']['shapes']):
        ctx.count('same-name')
    if tuple(plan['up']) not in ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.)):
        ctx.count('odd-up')
    colors = o['colors'] if plan['named'] or not o['colors'] else None
    if colors:
        ctx.count('colour')

    def call(p, inputs):
        from arboris.visu.world_drawer import ColorGenerator
        if colors:
            kw['color_generator'] = ColorGenerator({colors[0]: tuple(colors[1])})
        writer(o['drv'])(b.sim.w, p, **kw)
    state = b.sim.state()

    def check(d, what):
        judge(ctx, d, scene_of(b, o['flat'], o['drv'], o['scale'], opts, colors, state), what)
    operate(b, 'scene', call, out, [], check, o['fault'], 'writing the scene %s' % where)
    return scene_of(b, o['flat'], o['drv'], o['scale'], opts, colors, state)


def same_state(a, c):
    return all(np.array_equal(a[i][k], c[i][k]) for i in (0, 1) for k in a[i])


def do_run(b, o):
    """a logged run, with exports in the middle of it; the twin does without"""
    from arboris import observers as O
    ctx, plan, core = b.ctx, b.plan, b.core
    n = plan['n']
    t = [plan['t0'] + plan['dt'] * k for k in range(n + 1)]
    rec = [[], []]

    class Shadow(core.Observer):
        ctx = b.ctx

        def __init__(self, sim, i):
            core.Observer.__init__(self)
            self.sim, self.i = sim, i

        @cb
        def init(self, world, timeline):
            pass

        @cb
        def update(self, dt):
            s = self.sim
            rec[self.i].append((s.state(), [np.array(x.pose) for x in s.bodies.values()], [np.array(x.jacobian) for x in list(s.bodies.values())[1:]],
                                [np.array(x.twist) for x in s.bodies.values()], np.array(s.w.mass), s.w.current_time))

        @cb
        def finish(self):
            pass

    class Exporter(core.Observer):
        ctx = b.ctx

        def __init__(self, mids):
            core.Observer.__init__(self)
            self.mids, self.k = mids, 0

        @cb
        def init(self, world, timeline):
            pass

        @cb
        def update(self, dt):
            for i, m in enumerate(self.mids):
                if m['k'] == self.k:
                    ctx.count('mid-run')
                    if m['fault']:
                        ctx.count('mid-run-fault')
                    do_scene(b, m, b.path('mid'), 'in step %d' % self.k)
                    if self.k:
                        b.nt = True
            self.k += 1

        @cb
        def finish(self):
            pass
    kind, ext = plan['log'], plan['ext']
    path = b.path('log')[:-4] + {('pickle', 'std'): '.pkl', ('pickle', 'alt'): '.pickle', ('hdf5', 'std'): '.h5', ('hdf5', 'alt'): '.hdf5'}.get((kind, ext), '.log')
    if kind == 'pickle':
        lg = O.PickleLogger(path, flat=plan['flat'], protocol=plan['proto'])
    else:
        lg = O.Hdf5Logger(path, group=plan['group'], flat=plan['flat'], save_state=True)
    obs = [lg, Shadow(b.sim, 0)]
    obs.insert(o['pos'] % 3, Exporter(o['mid']))
    with sut(ctx, 'simulate'):
        core.simulate(b.sim.w, t, obs)
    with sut(ctx, 'simulate (twin)'):
        core.simulate(b.twin.w, t, [Shadow(b.twin, 1)])
    for k, (x, y) in enumerate(zip(*rec)):
        ok = same_state(x[0], y[0]) and all(np.array_equal(p, q) for i in (1, 2, 3) for p, q in zip(x[i], y[i])) and np.array_equal(x[4], y[4]) and x[5] == y[5]
        ctx.check(ok, 'disturbed', 'step %d differs from the one of the world which was not exported' % k)
    ctx.check(same_state(b.sim.state(), b.twin.state()), 'disturbed', 'the run ends differently from the one of the world which was not exported')
    if n == 0:
        ctx.count('no-step')
    ctx.steps += n
    ctx.sim_time += n * plan['dt']
    b.log = (path, [x[0] for x in rec[0]], t[:n])


def do_anim(b, o):
    ctx, plan = b.ctx, b.plan
    import arboris.visu.dae_writer as D
    if b.scene is None or b.log is None or b.scene[2] != plan['flat']:
        return
    spath, exp, _ = b.scene
    lpath, states, times = b.log
    ctx.count('anim')
    ctx.count(plan['log'])
    kw = {}
    if plan['log'] == 'hdf5' and plan['group'] != '/':
        kw['hdf5_group'] = plan['group']
        ctx.count('subgroup')
    if plan['ext'] == 'none':
        kw['file_type'] = dict(pickle='pkl', hdf5='h5')[plan['log']]
    if o['prec'] != 8:
        kw['precision'] = o['prec']
    s = b.sim
    Ks = [s.tree.kin(*x) for x in states]

    def call(p, inputs):
        if o['direct']:
            tr = {}
            els = [(x.name, x) for x in s.w.iterbodies()] if plan['flat'] else [(j.frames[1].name, j) for j in s.w.iterjoints()]
            for nm, e in els:
                i = [q for q, bb in s.bodies.items() if (bb is e or bb.parentjoint is e)][0]
                if plan['flat']:
                    tr[nm] = np.array([K.H[i] for K in Ks]).reshape(-1, 4, 4)
                else:
                    x = [y for y in plan['model']['bodies'] if y['id'] == i][0]
                    H0 = model.mat(x['H0']) if x['H0'] else np.eye(4)
                    H1 = model.mat(x['H1']) if x['H1'] else np.eye(4)
                    tr[nm] = np.array([np.linalg.inv(K.H[x['parent']] @ H0) @ K.H[i] @ H1 for K in Ks]).reshape(-1, 4, 4)
            for f in s.w.itermovingsubframes():
                i = [q for q, ff in s.frames.items() if ff is f]
                if i:
                    tr[f.name] = np.array([s.frame_pose_ref(K, i[0]) if plan['flat'] else s.fH[i[0]] for K in Ks]).reshape(-1, 4, 4)
                else:
                    # a joint hangs on it
                    x = [y for y in plan['model']['bodies'] if s.anchors.get((y['id'], 'H0')) is f][0]
                    H0 = model.mat(x['H0'])
                    tr[f.name] = np.array([K.H[x['parent']] @ H0 if plan['flat'] else H0 for K in Ks]).reshape(-1, 4, 4)
            D.write_collada_animation_from_transforms(p, inputs[0], np.array(times), tr, o['prec'])
        else:
            D.write_collada_animation(p, inputs[0], inputs[1], **kw)
    if o['direct']:
        ctx.count('direct')

    def check(d, what):
        judge(ctx, d, exp, what)
        animated(d, what)

    def animated(d, what):
        try:
            an = d.animations()
        except dae.Bad as e:
            ctx.fail('invalid-animation', '%s: %s' % (what, e))
        names = set(x.name for x in s.w.iterbodies()) if plan['flat'] else set(j.frames[1].name for j in s.w.iterjoints())
        names |= set(f.name for f in s.w.itermovingsubframes())
        ground = s.w.ground.name
        ctx.check(set(an) - {ground} == names - {ground}, 'animated', '%s: %s are animated, not %s' % (what, sorted(an)[:6], sorted(names)[:6]))
        half = .51 * 10. ** -o['prec'] + 1e-12
        for nm, (ti, va, it) in an.items():
            ctx.check(len(ti) == len(times), 'keys', '%s: %r has %d keys for %d steps' % (what, nm, len(ti), len(times)))
            ctx.check(all(abs(x - y) <= half for x, y in zip(ti, times)), 'key-times', '%s: the keys of %r are not at the times of the steps' % (what, nm))
        for k, K in enumerate(Ks):
            pose = poses_at(exp, K)
            tol_up = 12 * half * (1 + max(np.abs(P).max() for P in pose.values()))
            over = {nm: va[k] for nm, (ti, va, it) in an.items()}
            try:
                frames, _ = d.scene(over)
            except dae.Bad as e:
                ctx.fail('invalid-document', '%s: %s' % (what, e))
            for nm, P in pose.items():
                g = np.abs(frames[nm][0] - P).max()
                ctx.check(g <= tol_up + 4e-6 * (1 + np.abs(P).max()), 'animated-pose', lambda: '%s: at step %d the frame %r is %.3g away from its pose' % (what, k, nm, g))
    out = b.anim[0] if b.anim and o['over'] else b.path('anim')
    if b.anim and o['over']:
        ctx.count('overwrite')
    inputs = [spath] if o['direct'] else [spath, lpath]
    operate(b, 'anim', call, out, inputs, check, o['fault'], 'writing the animation')
    b.anim = (out, exp, animated)
    if len(times) > 1 and b.fault_seen:
        b.nt = True


def tr_matrix(tr):
    M = np.eye(4)
    for t, v in tr:
        e = types.SimpleNamespace(tag=dae.NS + t, text=' '.join(repr(x) for x in v))
        M = M @ dae.matrix_of(e)
    return M


def ext_drawn(n, P, own=True):
    P = P @ tr_matrix(n['tr']) if own else P
    out = [('ext%d' % g, P, [.1, .2, .3] if n['mat'] else None) for g in n['geoms']]
    if n['sub']:
        out += ext_drawn(n['sub'], P)
    return out


def do_shapes(b, o):
    ctx, plan = b.ctx, b.plan
    import arboris.visu.dae_writer as D
    on = b.anim if o['on'] == 'anim' else b.scene
    if on is None:
        return
    path, exp = on[:2]
    ctx.count('shapes')
    if o['on'] == 'anim':
        ctx.count('shapes-on-anim')
    mg = o['merge']
    extra = list(exp['extra'])
    if mg['whole']:
        ctx.count('whole-file')
        # a file whose shapes are named after the elements of the scene
        names = sorted(exp['frames'])
        f = plan['files'][mg['ext']]
        sub = dict(nodes=[dict(n, id=names[i % len(names)] if i < len(names) else 'w%d_%d' % (b.n, i), sub=n['sub'] and dict(n['sub'], id='w%d_%ds' % (b.n, i))) for i, n in enumerate(f['nodes'])])
        p = b.path('whole')
        # geometries must differ from those of earlier merges
        with open(p, 'w') as h:
            h.write(ext_xml(sub))
        for i, n in enumerate(sub['nodes']):
            if i < len(names):
                extra += ext_drawn(n, exp['frames'][names[i]])
        arg = p
        files = [p]
    else:
        arg, files = [], []
        names = sorted(exp['frames']) + ['ground']
        for it in mg['items']:
            f = plan['files'][it['ext']]
            nm = names[it['frame'] % len(names)]
            P = np.eye(4) if nm == 'ground' else exp['frames'][nm]
            sp = b.files[it['ext']]
            if it['ext'] not in files:
                files.append(it['ext'])
            nodes = f['nodes']
            if it['node'] is None:
                nodes = f['nodes']
                ctx.count('whole-file')
            else:
                i = it['node']
                nd = next((x['sub'] for x in f['nodes'] if x['sub']), f['nodes'][0]) if i == 'sub' else f['nodes'][i % len(f['nodes'])]
                nodes = [nd]
                sp = sp + '#' + (nd['id'] if it['missing'] != 'shape' else 'nothing')
            miss = it['missing'] == 'frame' or it['missing'] == 'shape' and it['node'] is not None
            if miss:
                ctx.count('missing-shape')
            H, sc = it['H'], it['scale']
            if it['form'] != 'dict' and sc is not None and H is None:
                H = L(np.eye(4))
            X = np.eye(4) if H is None else np.array(H)
            S = np.eye(4) if sc is None else np.diag(([sc] * 3 if not isinstance(sc, list) else sc) + [1.])
            if not miss:
                for nd in nodes:
                    extra += ext_drawn(nd, P @ X @ S)
            fn = nm if it['missing'] != 'frame' else 'nowhere'
            if it['form'] == 'dict':
                d = dict(frame=fn, mesh=sp)
                if H is not None:
                    d['transform'] = np.array(H)
                if sc is not None:
                    d['scale'] = sc if not isinstance(sc, list) else tuple(sc)
                arg.append(d)
            else:
                x = [fn, sp] + ([np.array(H)] if H is not None else []) + ([sc] if sc is not None else [])
                arg.append(x if it['form'] == 'list' else tuple(x))
        files = [b.files[i] for i in files]
    exp2 = dict(exp, extra=extra)
    out = path if o['inplace'] else b.path('merged')
    if o['inplace']:
        ctx.count('in-place')

    def swap(inputs):
        t = dict(zip([path] + files, inputs))
        if isinstance(arg, str):
            return t[arg]
        res = []
        for x in arg:
            if isinstance(x, dict):
                f, s, i = x['mesh'].partition('#')
                res.append(dict(x, mesh=t[f] + s + i))
            else:
                f, s, i = x[1].partition('#')
                res.append(type(x)([x[0], t[f] + s + i] + list(x[2:])))
        return res

    def call(p, inputs):
        stdout, sys.stdout = sys.stdout, io.StringIO()
        try:
            if o['inplace'] and p == inputs[0]:
                D.add_shapes_to_dae(inputs[0], swap(inputs))
            else:
                D.add_shapes_to_dae(inputs[0], swap(inputs), p)
        finally:
            sys.stdout = stdout

    def check(d, what):
        judge(ctx, d, exp2, what)
        if o['on'] == 'anim':
            b.anim[2](d, what)
    operate(b, 'shapes', call, out, [path] + files, check, o['fault'], 'merging shapes')
    if o['on'] == 'scene':
        b.scene = (out, exp2, b.scene[2])
    else:
        b.anim = (out, exp2, b.anim[2])


def do_view(b, o):
    import subprocess
    import arboris.visu as VV
    import arboris.visu.visu_collada as V
    ctx, plan = b.ctx, b.plan
    what = o['what']
    if what in ('scene', 'pydaenim-scene') and b.scene is None:
        return
    if what == 'anim' and (b.scene is None or b.log is None or plan['log'] != 'hdf5' or plan['ext'] == 'none' or b.scene[2] != plan['flat']):
        return
    ctx.count('view')
    seen = []

    def shown(path):
        with open(path, 'rb') as h:
            seen.append(h.read())
        if o['fail']:
            e = {'missing': lambda: FileNotFoundError(2, 'daenim'), 'status': lambda: subprocess.CalledProcessError(1, 'daenim'), 'interrupt': lambda: KeyboardInterrupt()}[o['fail']]()
            ctx.injected.append(e)
            ctx.count('viewer-fails')
            b.fault_seen = True
            raise e

    def check_call(args, *a, **k):
        shown(args[1])
        return 0

    class Result:
        returncode = 0
        args = ()

        def check_returncode(self):
            pass

    def run(args, *a, **k):
        shown(args[1])
        return Result()
    subs = [(subprocess, 'check_call', check_call), (subprocess, 'call', check_call), (subprocess, 'run', run)]
    pyd = types.SimpleNamespace(create_pydaenimViewer=lambda p, *a, **k: shown(p))
    before, fds0, ndf0 = b.snapshot(), b.fds(), len(os.listdir('/proc/self/fd'))
    raised = None
    old = VV.pydaenim
    VV.pydaenim = pyd
    try:
        with sut(ctx, 'view (%s)' % what), net.patched(subs):
            if what == 'world':
                V.view(b.sim.w, daenim_path='daenim')
            elif what == 'scene':
                V.view(b.scene[0], daenim_path='daenim')
            elif what == 'anim':
                V.view(b.scene[0], b.log[0], plan['group'], daenim_path='daenim')
            elif what == 'pydaenim-world':
                VV.view(b.sim.w)
            else:
                VV.view(b.scene[0])
    except BaseException as e:
        if not any(e is i for i in ctx.injected):
            raise
        raised = type(e).__name__
        e.__traceback__ = None
    finally:
        VV.pydaenim = old
    gc.collect(0)
    ctx.log('view', what, raised)
    ctx.check(len(seen) == 1, 'viewer', 'view (%s) started the viewer %d times' % (what, len(seen)))
    ctx.check(raised is not None or not o['fail'], 'viewer', 'the viewer failed and the caller was not told')
    try:
        d = dae.Doc(seen[0])
    except dae.Bad as e:
        ctx.fail('invalid-document', 'the viewer was given: %s' % e)
    if what in ('world', 'pydaenim-world'):
        judge(ctx, d, scene_of(b, False, 'daenim' if what == 'world' else 'pydaenim', 1, {}, None), 'the document given to the viewer')
    else:
        judge(ctx, d, b.scene[1], 'the document given to the viewer')
    after = b.snapshot()
    extra = [p for p in after if p not in before and not p.endswith('temp_scene.dae')]
    ctx.check(not extra, 'leftovers', 'view (%s)%s left %d files behind' % (what, ', which reported %s,' % raised if raised else '', len(extra)))
    ctx.check(b.fds() == fds0, 'leak', 'view (%s) left %d files open' % (what, len(b.fds()) - len(fds0)))


def execute(plan, ctx):
    engine.import_sut()
    engine.import_visu()
    root = tempfile.mkdtemp(prefix='c19-', dir='/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None)
    old = tempfile.tempdir
    import warnings
    import arboris.core
    known = {}
    # addresses are drawn by the simulator: they end up in names
    arboris.core.id = lambda o: known.setdefault(id(o), (10 ** 14 + len(known), o))[0]
    try:
        b = Bench(plan, ctx, root)
        tempfile.tempdir = b.tmp
        b.nt = False
        with sut(ctx, 'init'):
            b.sim.w.init()
            b.twin.w.init()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for o in plan['ops']:
                k = o['op']
                if k == 'scene':
                    out = b.path('scene')
                    if o['over'] and b.scene is not None:
                        out = b.scene[0]
                        ctx.count('overwrite')
                    exp = do_scene(b, o, out, 'after the run' if b.log else 'before the run')
                    b.scene = (out, exp, o['flat'])
                    if b.log and len(b.log[2]) and b.fault_seen:
                        b.nt = True
                elif k == 'run':
                    do_run(b, o)
                elif k == 'anim':
                    do_anim(b, o)
                elif k == 'shapes':
                    do_shapes(b, o)
                else:
                    do_view(b, o)
                ctx.sig(k, o.get('drv'), o.get('flat'), o['fault'] and o['fault']['kind'], plan['log'])
                ctx.log('done', k)
        ctx.nontrivial = b.nt
    finally:
        tempfile.tempdir = old
        vars(arboris.core).pop('id', None)
        shutil.rmtree(root, ignore_errors=True)
