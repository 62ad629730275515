"""What decides each property: law witnesses (engine/veval) and analyses."""

import os

import build
import effects

TRUSTED = [
    'clang 18 front end and LLVM -O2 passes preserve the meaning of the sources (the analysed object is their output)',
    'engine/irparse.py, engine/veval.py: meaning of the LLVM instructions and of libm / libstdc++ calls',
    'engine/algebra.py: exact rational arithmetic, normal forms modulo sin^2+cos^2=1, sqrt(x)^2=x, angle addition',
    'laws/*.cpp: the specifications, written without the library code under analysis',
]
ASSUMPTIONS = [
    'Floating-point values are read as real numbers: rounding, overflow, NaN and infinities are outside the statement.',
    'Literals that round a real constant (3.1415927f for pi) are read as that constant where the engine recognises them.',
]
VN = ('gated value numbering (forward dataflow over the LLVM IR of the current sources, values as exact normal forms); '
      'the two sides of every stated equation must get the same value number on every control-flow path')


# how the law files that are not about the plain math sources are built
SCENE = {'shape': True}
URDF = dict(SCENE, dirs=('scenegraph',), only={'urdf.cpp'})
POSES = dict(URDF, override=('posefn.cpp',))  # users of poses: inverse and product as functions
EIGEN = {'flags': ['-DEIGEN_DONT_VECTORIZE']}  # the plain math sources, Eigen in scalar form
COLLADA = dict(SCENE, dirs=('scenegraph', 'geometrics', 'types'), only={'mesh.cpp', 'meshfactory.cpp', 'scenebuilder.cpp', 'colladabuilder.cpp', 'colladascenebuilder.cpp', 'shapes3d.cpp', 'altransform.cpp'},
               flags=['-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'laws', 'stub')])
STUB = ['-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'laws', 'stub')]
SYSTEM = dict(SCENE, dirs=('scenegraph',), only={'urdf.cpp', 'urdfrigidbodysystemtraverser.cpp'}, flags=STUB)
QIANIM = dict(SCENE, dirs=('scenegraph',), only={'qianim.cpp'})
TEXT = dict(SCENE, dirs=('tools', 'types'), only={'almathio.cpp'} | {f + '.cpp' for f in 'alpose2d alposition2d alposition3d alposition6d alpositionandvelocity alrotation alrotation3d altransform altransformandvelocity6d alvelocity3d alvelocity6d alquaternion almath'.split()})
SWIG = dict(TEXT, dirs=('types', 'tools'), only=TEXT['only'] | {'occupancymapparams.cpp', 'aldisplacement.cpp', 'altransformhelpers.cpp'})
QIMODULE = dict(SCENE, dirs=('scenegraph',), only={'mesh.cpp'}, flags=STUB, module=('geometry_module/src/registration.cpp',))
MESH = dict(SCENE, dirs=('scenegraph',), only={'mesh.cpp', 'meshfactory.cpp'})
BUILD = {'C25': URDF, 'C26': URDF, 'C27': POSES, 'C27b': URDF, 'C28': URDF, 'C29': URDF,
         'C33': SYSTEM, 'C31': QIANIM, 'C32': TEXT, 'C30': EIGEN, 'C36': SWIG, 'C34': EIGEN, 'C34b': QIMODULE, 'C35': {'flags': STUB}, 'C39': {'flags': ['-fmath-errno']}, 'C22': MESH, 'C23': MESH, 'C24': COLLADA}


def laws(*files, **kw):
    d = dict(BUILD.get(files[0], {}))
    d.update(files=[f + '.cpp' for f in files], **kw)
    return d


PROPS = {
    'C01': dict(laws=[laws('C01')], note='rigid-transform group laws over opaque rigid transforms'),
    'C02': dict(laws=[laws('C02'),
                      laws('C03', select='conv_(quat_to_matrix|quat_from.*)')], note='rotation algebra over opaque rotations'),
    'C03': dict(laws=[laws('C03'),
                      laws('C02', 'C04', 'C05', 'C14', select='rot_(angle_axis.*|elementary|rpy.*|tf_elementary)|qua_to_angle_axis.*|pose_(transform|parts)|part_(pose|displacement|position2d|position_from|quaternion).*')], note='orientation representation conversions'),
    'C04': dict(laws=[laws('C04'),
                      laws('C03', select='conv_quat_(action|product)|conv_angle_axis_to_quat')], note='quaternion algebra, axis-angle form'),
    'C05': dict(laws=[laws('C05'),
                      laws('C14', select='part_(pose|transform_from_pose).*')], note='planar pose group'),
    'C06': dict(laws=[laws('C06')], note='change of reference frame'),
    'C07': dict(laws=[laws('C07')], note='component-wise vector spaces, norms and products'),
    'C08': dict(laws=[laws('C08')], note='equality and nearness'),
    'C09': dict(laws=[laws('C09')], note='vectors of floats in both directions, all sizes near the accepted ones'),
    'C10': dict(laws=[laws('C10'),
                      laws('C04', 'C07', 'C12', select='qua_(normalize|divide.*)|unit_.*|div_.*|proj_null.*|ortho_null')], note='exact domain of definition of divisions, normalisations, interpolation'),
    'C11': dict(laws=[laws('C11')], note='exponential, logarithm, interpolation'),
    'C12': dict(laws=[laws('C12')], note='frames from axes, axis projections, point mass inertia'),
    'C13': dict(laws=[laws('C13')], note='angle reduction, means (lists of up to 3), clipping (lists of up to 3)'),
    'C14': dict(laws=[laws('C14'),
                      laws('C01', 'C03', 'C04', 'C05', 'C06', 'C07', 'C11', 'C12', 'C13', select='group_inverse_variants|conv_(displacement|p6_to_quat|quat_to_matrix|quat_to_rpy|rpy_roundtrip_p6|rpy_to_quat|transform_parts)|qua_(inverse|to_angle_axis.*)|pose_(parts|change_reference|inverse_siblings|transform)|ref_(position3|position6|velocity|transform.*|norm)|dot_cross_.|(exp|log)_inplace|mean_in_place|modulo_in_place|proj_(?!fixed_(tf_)?xyz).*|ortho_.*')], note='conversions between value types, all forms'),
    'C16': dict(laws=[laws('C16')], note='filter recurrence, orders 0-4, histories of up to 9 steps'),
    'C17': dict(laws=[laws('C17')], note='PID law, histories of up to 4 steps'),
    'C18': dict(laws=[laws('C18')], note='occupancy map frames'),
    'C19': dict(laws=[laws('C19')], note='segments over angle sectors; boxes: named shapes; bisection and clipping: all moves'),
    'C21': dict(laws=[laws('C21')], note='all dimensions and centres (directions: two charts of the sphere, a meridian and the poles)'),
    'C22': dict(laws=[laws('C22')], note='canonical states, one or two calls, opaque coordinates'),
    'C23': dict(laws=[laws('C23')], note='up to two vertices per arc; opaque sizes'),
    'C24': dict(laws=[laws('C24')], note='boost::format and write_xml are replaced by models (laws/stub); the document is read as a property tree'),
    'C39': dict(laws=[laws('C39')], note='matrices within 1e-3 of the half spaces that contain every rotation; all quaternions but small ones; all axes'),
    'C30': dict(laws=[laws('C30')], note='scalar build of Eigen'),
    'C31': dict(laws=[laws('C31')], note='documents of named shapes; frames stand for their order'),
    'C32': dict(laws=[laws('C32')], note='text with opaque numbers'),
    'C25': dict(laws=[laws('C25')], note='property-tree documents of named shapes with opaque numbers; exact rigid motions'),
    'C26': dict(laws=[laws('C26')], note='trees of up to four links and three joints: every shape; fixed names'),
    'C27': dict(laws=[laws('C27'), laws('C27b')], note='product and inverse of poses as uninterpreted functions (their meaning is C25); all presence patterns'),
    'C28': dict(laws=[laws('C28')], note='every tree of four links; numbers of elements up to two'),
    'C29': dict(laws=[laws('C29')], note='trees of up to four links; frames turned about single axes; frames of whole trees are translated only'),
    'C33': dict(laws=[laws('C33')], note='histories of up to five requests; documents of up to four links'),
    'C34': dict(laws=[laws('C34'), laws('C34b')], note='structs generated from the interface file; qi module and Eigen rotation part are replaced by models'),
    'C35': dict(laws=[laws('C35')], note='qi and ros types are replaced by models (laws/stub)'),
    'C36': dict(laws=[laws('C36')], note='C++ functions of the %extend blocks of almath.i; text with opaque numbers'),
    'C20': dict(laws=[laws('C20')], note='all four kinds of curve, any target; headings up to whole turns'),
}


def witnesses():
    """the law files, which use what the headers define"""
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'laws')
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith('.cpp') and f not in ('posefn.cpp', 'rt.cpp') and not f.startswith('C36'):
            b = BUILD.get(f[:-4], {})
            out.append((os.path.join(d, f), tuple((build.SHAPE if b.get('shape') else []) + b.get('flags', []))))
    return out


EF = 'interprocedural effect analysis over the LLVM IR of the current sources: alias classes from each static variable and const argument, may-write summaries per function; taint of static initialisers; list of impure callees'
EX = 'interprocedural exception analysis over the LLVM IR of the current sources: types thrown, calls that end the process, exceptions that reach a terminate handler'
PROPS['C37'] = dict(analyses=[effects.analysis('effects', witnesses)], technique=EF, note='may-analysis: writes through memory are followed to what static objects and const values that own their parts lead to; indirect calls are not followed')
PROPS['C38'] = dict(analyses=[effects.analysis('failures', witnesses)], technique=EX, note='exceptions thrown in the repository; failures of allocation and of assertions are left out')
for _c in PROPS.values():
    _c.setdefault('level', 'other')
    _c.setdefault('technique', VN)
