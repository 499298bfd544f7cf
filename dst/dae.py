"""An independent reader of collada documents: enough of a viewer to know where
everything is drawn, at rest and at every key of an animation."""
import math
import xml.etree.ElementTree as ET
import numpy as np

NS = '{http://www.collada.org/2005/11/COLLADASchema}'


class Bad(Exception):
    """the document is not one a viewer could use"""


def t(x):
    return NS + x


def floats(e, what):
    try:
        return [float(x) for x in (e.text or '').split()]
    except ValueError:
        raise Bad('%s: not numbers' % what)


def matrix_of(e):
    k = e.tag[len(NS):]
    v = floats(e, k)
    M = np.eye(4)
    if k == 'matrix':
        if len(v) != 16:
            raise Bad('a matrix with %d numbers' % len(v))
        M = np.array(v).reshape(4, 4)
    elif k == 'translate':
        M[:3, 3] = v
    elif k == 'scale':
        M[0, 0], M[1, 1], M[2, 2] = v
    elif k == 'rotate':
        a, th = np.array(v[:3]), math.radians(v[3])
        a = a / np.linalg.norm(a)
        K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
        M[:3, :3] = np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * K @ K
    else:
        return None
    return M


def classify(v):
    """kind of a unit mesh from its vertices"""
    v = np.array(v).reshape(-1, 3)
    n = np.linalg.norm(v, axis=1)
    if len(v) and v[0, 0] > 500:
        return 'ext%d' % round(v[0, 1])
    if len(v) == 2:
        return 'line'
    if len(v) == 4:
        return 'plane' if np.allclose(v[:, 2], 0) else 'arrows'
    if len(v) == 8 and np.allclose(np.abs(v), 1, atol=1e-5):
        return 'box'
    if len(v) > 20 and np.allclose(n, 1, atol=1e-4):
        return 'sphere'
    if len(v) > 20 and np.allclose(np.abs(v[:, 2]), .5, atol=1e-5) and np.allclose(np.linalg.norm(v[:, :2], axis=1), 1, atol=1e-4):
        return 'cylinder'
    return 'mesh?'


class Doc:
    def __init__(self, data):
        try:
            self.root = ET.fromstring(data)
        except ET.ParseError as e:
            raise Bad('not well-formed: %s' % e)
        if self.root.tag != t('COLLADA'):
            raise Bad('the root is %s' % self.root.tag)
        self.ids = {}
        for e in self.root.iter():
            i = e.get('id')
            if i is not None:
                self.ids.setdefault(i, e)
        self.geoms = {}

    def ref(self, url, kind):
        if not url or url[0] != '#' or url[1:] not in self.ids or self.ids[url[1:]].tag != t(kind):
            raise Bad('%r refers to no %s' % (url, kind))
        return self.ids[url[1:]]

    def up(self):
        e = self.root.find(t('asset') + '/' + t('up_axis'))
        return None if e is None else e.text.strip()

    def geom(self, g):
        if id(g) not in self.geoms:
            p = g.find('.//' + t('vertices') + '/' + t('input'))
            src = self.ref(p.get('source'), 'source')
            self.geoms[id(g)] = classify(floats(src.find(t('float_array')), 'positions'))
        return self.geoms[id(g)]

    def color(self, inst):
        m = inst.find('.//' + t('instance_material'))
        if m is None:
            return None
        mat = self.ref(m.get('target'), 'material')
        eff = self.ref(mat.find(t('instance_effect')).get('url'), 'effect')
        c = eff.find('.//' + t('diffuse') + '/' + t('color'))
        return None if c is None else floats(c, 'color')[:3]

    def scene(self, override=()):
        """(frames: id -> matrix), [(kind, matrix, colour, path)] as drawn"""
        override = dict(override)
        inst = self.root.find(t('scene') + '/' + t('instance_visual_scene'))
        if inst is None:
            raise Bad('no scene')
        vs = self.ref(inst.get('url'), 'visual_scene')
        frames, drawn = {}, []

        def walk(n, M, path):
            if len(path) > 60:
                raise Bad('recursive nodes')
            i = n.get('id')
            for e in n:
                k = e.tag[len(NS):]
                if k in ('matrix', 'translate', 'scale', 'rotate'):
                    X = matrix_of(e)
                    if i is not None and k == 'matrix' and e.get('sid') == 'matrix' and i in override:
                        X = override[i]
                    M = M @ X
            if i is not None:
                frames.setdefault(i, []).append(M)
            for e in n:
                k = e.tag[len(NS):]
                if k == 'node':
                    walk(e, M, path + [i])
                elif k == 'instance_node':
                    walk(self.ref(e.get('url'), 'node'), M, path + [i])
                elif k == 'instance_geometry':
                    drawn.append((self.geom(self.ref(e.get('url'), 'geometry')), M, self.color(e), path + [i]))
        for n in vs.findall(t('node')):
            walk(n, np.eye(4), [])
        return frames, drawn

    def targets(self):
        """ids of the nodes which hold a matrix that an animation may drive"""
        return set(e.get('id') for e in self.root.iter(t('node')) if e.get('id') is not None and any(m.get('sid') == 'matrix' for m in e.findall(t('matrix'))))

    def animations(self):
        """node id -> (times, matrices)"""
        out = {}
        for ch in self.root.iter(t('channel')):
            tgt = ch.get('target') or ''
            node, _, sid = tgt.rpartition('/')
            if sid != 'matrix' or node not in self.targets():
                raise Bad('a channel drives %r, which does not exist' % tgt)
            if node in out:
                raise Bad('two channels drive %r' % tgt)
            sam = self.ref(ch.get('source'), 'sampler')
            data = {}
            for inp in sam.findall(t('input')):
                src = self.ref(inp.get('source'), 'source')
                acc = src.find(t('technique_common') + '/' + t('accessor'))
                arr = self.ids.get((acc.get('source') or '#')[1:])
                if arr is None or arr not in list(src):
                    raise Bad('an accessor without array')
                stride = int(acc.get('stride', '1'))
                v = (arr.text or '').split()
                if arr.tag == t('float_array'):
                    v = floats(arr, 'animation')
                if int(acc.get('count')) * stride != len(v):
                    raise Bad('%s: %s x %d values announced, %d found' % (tgt, acc.get('count'), stride, len(v)))
                data[inp.get('semantic')] = (stride, v)
            if sorted(data) != ['INPUT', 'INTERPOLATION', 'OUTPUT']:
                raise Bad('sampler with inputs %s' % sorted(data))
            n = len(data['INPUT'][1])
            if data['OUTPUT'][0] != 16 or len(data['OUTPUT'][1]) != 16 * n or len(data['INTERPOLATION'][1]) != n:
                raise Bad('%s: %d times, %d values' % (tgt, n, len(data['OUTPUT'][1])))
            out[node] = (np.array(data['INPUT'][1]), np.array(data['OUTPUT'][1]).reshape(n, 4, 4), data['INTERPOLATION'][1])
        return out

    def rigid_bodies(self):
        out = []
        for rb in self.root.iter(t('rigid_body')):
            tc = rb.find(t('technique_common'))
            H = np.eye(4)
            for e in tc.find(t('mass_frame')):
                H = H @ matrix_of(e)
            m, i = floats(tc.find(t('mass')), 'mass'), floats(tc.find(t('inertia')), 'inertia')
            if len(m) != 1 or len(i) != 3:
                raise Bad('rigid body: %d numbers for the mass and %d for the inertia' % (len(m), len(i)))
            out.append((rb.get('sid'), m[0], H, i))
        return out
