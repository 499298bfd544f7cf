BUGS = {}

READ = '''
DIR = tempfile.mkdtemp(prefix='demo19-')
import atexit, shutil
atexit.register(shutil.rmtree, DIR, True)
import xml.etree.ElementTree as ET
from arboris.visu import dae_writer, visu_collada
NS = '{http://www.collada.org/2005/11/COLLADASchema}'


def root(p):
    return ET.parse(os.path.join(DIR, p)).getroot()


def nodes(p):
    return dict((n.get('id'), n) for n in root(p).iter(NS + 'node') if n.get('id'))


def numbers(e):
    return [float(x) for x in e.text.split()]
'''

BUGS['C19a'] = dict(property='C19', edits=[('arboris/visu/dae_writer.py',
"""    world.update_geometric()
    
    driver = pydaenimColladaDriver""",
"""    if world.current_time == 0.:
        # otherwise the simulation keeps the poses up to date
        world.update_geometric()
    
    driver = pydaenimColladaDriver""")],
needs='a scene exported after a run (or after the joints were moved by hand at a time other than 0)',
breaks='The scene shows the world at the beginning of the last step.',
demo=READ + '''
w = World()
j = RzJoint(gvel=[1.], name='j')
a = box(name='a')
w.add_link(w.ground, j, a)
simulate(w, [0., .1, .5])
dae_writer.write_collada_scene(w, os.path.join(DIR, 's.dae'), flat=True)
m = np.array(numbers(nodes('s.dae')['a'].find(NS + 'matrix'))).reshape(4, 4)
expect(abs(m[1, 0] - math.sin(j.gpos[0])) < 1e-5, str(m))
''')

BUGS['C19b'] = dict(property='C19', edits=[('arboris/visu/dae_writer.py',
"""            str_src_data = " ".join([str(round(val, precision)) for val in src_data])+" "
            str_src_data = str_src_data.replace(".0 ", " ")
""",
"""            # remove the trailing zeros
            str_src_data = " ".join([("%.*f" % (precision, val)).rstrip("0.") or "0" for val in src_data])
""")],
needs='a key at a time (or with a coordinate) which rounds to a multiple of ten',
breaks='10 is written as 1: the animation jumps.',
demo=READ + '''
w = World()
w.add_link(w.ground, RzJoint(name='j'), box(name='a'))
w.init()
dae_writer.write_collada_scene(w, os.path.join(DIR, 's.dae'))
t = np.array([9.5, 10., 10.5])
dae_writer.write_collada_animation_from_transforms(os.path.join(DIR, 'a.dae'), os.path.join(DIR, 's.dae'), t, {'a': np.array([eye(4)] * 3)}, 8)
got = [numbers(e) for e in root('a.dae').iter(NS + 'float_array') if 'input' in e.get('id')]
expect(got == [[9.5, 10., 10.5]], str(got))
''')

BUGS['C19c'] = dict(property='C19', edits=[('arboris/visu/dae_writer.py',
"""    return "node_"+uri.replace("\\\\", "_").replace("/", "_").replace("#", "..").replace(":", "..")
""",
"""    # the directories do not matter
    return "node_"+os.path.basename(uri).replace("\\\\", "_").replace("#", "..").replace(":", "..")
""")],
needs='shapes merged from two files with the same name in different directories',
breaks='The shapes of the first file are shown twice, those of the second one never.',
demo=READ + '''
XML = """<?xml version="1.0"?><COLLADA xmlns="http://www.collada.org/2005/11/COLLADASchema" version="1.4.1"><asset><created>2020-01-01T00:00:00</created>
<modified>2020-01-01T00:00:00</modified></asset><library_geometries><geometry id="geo{0}"><mesh><source id="p{0}"><float_array id="a{0}" count="9">0 0 0 1 0 0 0 1 0</float_array>
<technique_common><accessor source="#a{0}" count="3" stride="3"><param name="X" type="float"/><param name="Y" type="float"/><param name="Z" type="float"/></accessor></technique_common>
</source><vertices id="v{0}"><input semantic="POSITION" source="#p{0}"/></vertices><triangles count="1"><input semantic="VERTEX" source="#v{0}" offset="0"/><p>0 1 2</p></triangles>
</mesh></geometry></library_geometries><library_visual_scenes><visual_scene id="S"><node id="shape"><instance_geometry url="#geo{0}"/></node></visual_scene></library_visual_scenes>
<scene><instance_visual_scene url="#S"/></scene></COLLADA>"""
w = World()
w.add_link(w.ground, RzJoint(name='j'), box(name='a'))
w.add_link(w.ground, RzJoint(name='k'), box(name='b'))
s = os.path.join(DIR, 's.dae')
w.init()
dae_writer.write_collada_scene(w, s)
for k in (1, 2):
    os.mkdir(os.path.join(DIR, str(k)))
    open(os.path.join(DIR, str(k), 'arm.dae'), 'w').write(XML.format(k))
dae_writer.add_shapes_to_dae(s, [['a', os.path.join(DIR, '1', 'arm.dae') + '#shape'], ['b', os.path.join(DIR, '2', 'arm.dae') + '#shape']])
used = [e.get('url') for e in root('s.dae').iter(NS + 'instance_geometry')]
expect('#geo1' in used and '#geo2' in used, str(used))
''')

BUGS['C19d'] = dict(property='C19', edits=[('arboris/visu/dae_writer.py',
"""        self.shapes_dae = collada.Collada(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'simple_shapes.dae') )
""",
"""        if pydaenimColladaDriver._shapes_dae is None:
            # it is always the same, do not read it again for each scene
            pydaenimColladaDriver._shapes_dae = collada.Collada(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'simple_shapes.dae') )
        self.shapes_dae = pydaenimColladaDriver._shapes_dae
"""), ('arboris/visu/dae_writer.py',
"""    a light collada, with minimal information.
    \"\"\"
""",
"""    a light collada, with minimal information.
    \"\"\"
    _shapes_dae = None

""")],
needs='two scenes for daenim exported by the same process',
breaks='The frame arrows of the second scene are scaled twice.',
demo=READ + '''
w = World()
w.add_link(w.ground, RzJoint(name='j'), box(name='a'))
got = []
w.init()
for s in ('s.dae', 't.dae'):
    visu_collada.write_collada_scene(w, os.path.join(DIR, s))
    got.append([numbers(e) for e in nodes(s)['frame_arrows'].iter(NS + 'scale')])
expect(got[0] == got[1], str(got))
''')

BUGS['C19e'] = dict(property='C19', edits=[('arboris/visu/dae_writer.py',
"""                    instance_node.transforms.append(collada.scene.ScaleTransform(*scale))
""",
"""                    # scale the shape itself
                    instance_node.transforms.insert(0, collada.scene.ScaleTransform(*scale))
""")],
needs='a shape merged with both a transform (with an offset, or with a rotation and different scales) and a scale',
breaks='The offset of the shape is scaled too, the shape is misplaced.',
demo=READ + '''
w = World()
w.add_link(w.ground, RzJoint(name='j'), box(name='a'))
w.register(Sphere(w.getbodies()['a'], .1, name='ball'))
s = os.path.join(DIR, 's.dae')
w.init()
dae_writer.write_collada_scene(w, s)
lib = os.path.join(os.path.dirname(dae_writer.__file__), 'simple_shapes.dae')
dae_writer.add_shapes_to_dae(s, [['a', lib + '#simple_box_node', Hg.transl(1., 2., 3.), .5]])
for n in root('s.dae').iter(NS + 'node'):
    if n.find(NS + 'instance_node') is not None and n.find(NS + 'scale') is not None:
        order = [e.tag[len(NS):] for e in n if e.tag in (NS + 'scale', NS + 'matrix')]
        break
expect(order == ['matrix', 'scale'], str(order))
''')
