#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import props

P = []
NA = {}


def prop(pid, title, statement, over, text, why, files, mech, **kw):
    P.append({'id': pid, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': dict({'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, **kw)})


T = 'almath/types/'
S = 'src/types/'

prop('C01', 'Rigid transforms form a group that acts on points',
     '''In exact arithmetic (so up to floating-point rounding in practice) the product of transforms is composition of
     rigid motions (rotation parts multiply, the second translation is rotated then added), the default transform is
     neutral, and inversion gives a two-sided inverse. Products and inverses of proper rigid transforms stay
     proper rigid transforms (orthonormal rotation of determinant 1), and the in-place, member, operator and free forms of product,
     inverse, difference, distance, norm and determinant all agree. Applying a transform to a 3-D position
     rotates then translates it, consistently with composition and preserving distances.''',
     'inputs', 'every pair or triple of rigid transforms, every point, every angle',
     '''The tests compare a few hand computed matrices; the group laws quantify over a 6- or 12-dimensional continuum of transforms.''',
     T + 'altransform.h ' + S + 'altransform.cpp src/tools/altransformhelpers.cpp src/tools/almath.cpp',
     [('Transform::operator*, operator*=', S + 'altransform.cpp'), ('transformInverse, Transform::inverse', S + 'altransform.cpp'),
      ('transformPreMultiply, transformFromRotX/Y/Z, pinv', S + 'altransform.cpp'), ('operator*(Transform, Position3D)', 'src/tools/almath.cpp')])

prop('C02', 'Rotation matrices: algebra, projection, factories',
     '''In exact arithmetic the product of rotations is matrix multiplication, the transpose of a rotation is its inverse, the
     default rotation is neutral, the determinant of a rotation is 1, and rotations about x, y, z, about an axis by an angle, from a
     quaternion and from roll-pitch-yaw angles are the textbook matrices; these operations keep rotations proper. Normalising a
     rotation or transform whose axes are scaled by positive factors gives the proper rotation back, and applying a rotation to a position or velocity is the
     matrix-vector product and preserves lengths and cross products. The rotation and transform validity tests accept a matrix exactly when, within the
     tolerance, its columns are orthonormal and its determinant is 1; reflections are refused.''',
     'inputs', 'every rotation, pair or triple of rotations, angle, unit axis, vector',
     'The tests use a handful of rotations by pi/2 and 0.5 rad about coordinate axes.',
     T + 'alrotation.h ' + S + 'alrotation.cpp src/tools/almath.cpp',
     [('Rotation::operator*, transpose, determinant, normalize', S + 'alrotation.cpp'),
      ('rotationFromRotX/Y/Z, rotationFromAngleDirection, rotationFrom3DRotation', S + 'alrotation.cpp')])

prop('C03', 'Conversions between orientation representations are inverse and consistent',
     '''Conversions between rotation matrices, transforms, unit quaternions, roll-pitch-yaw angles, axis-angle pairs, 6-D positions and planar poses
     describe the same orientation and position whichever way they are chained. Converting to another representation and
     back returns the same orientation for every proper rotation, with roll-pitch-yaw meaning Rz(yaw) Ry(pitch) Rx(roll), and
     converting to roll-pitch-yaw and back returns the same angles for pitch inside ]-pi/2, pi/2[.''',
     'inputs', 'every proper rotation or rigid transform, every triple of angles, every unit quaternion, every pose',
     'The branches of the matrix to quaternion and matrix to angles conversions depend on the input region; tests sample a few points of some regions.',
     'src/tools/almath.cpp src/tools/altransformhelpers.cpp ' + S + 'alquaternion.cpp ' + S + 'alrotation3d.cpp ' + S + 'altransform.cpp',
     [('quaternionFromTransform, quaternionFromRotation3D, rotationFromQuaternion', 'src/tools/almath.cpp'),
      ('rotation3DFromRotation, position6DFromTransform', 'src/tools/almath.cpp, src/tools/altransformhelpers.cpp')])

prop('C04', 'Quaternions: algebra, norm, inverse, and axis-angle form',
     '''Quaternion multiplication is the Hamilton product, the norm is multiplicative, and every non-zero quaternion
     has a normalised form of norm 1. The inverse is the conjugate, hence a two-sided inverse of every unit quaternion. For unit quaternions the product composes rotations, and building
     one from an angle and a unit axis and reading the axis and angle back describes the same rotation. The angle and axis read from a non-zero quaternion do not
     depend on its norm, and the axis is a unit vector.''',
     'inputs', 'all quaternions (unit where stated), all angles and unit axes',
     'The tests read back one or two unit quaternions.',
     T + 'alquaternion.h ' + S + 'alquaternion.cpp',
     [('Quaternion::operator*, inverse, normalize', S + 'alquaternion.cpp'),
      ('angleAndAxisRotationFromQuaternion, quaternionFromAngleAndAxisRotation', S + 'alquaternion.cpp')])

prop('C05', 'Planar poses form a group compatible with 3-D transforms',
     '''Composition of planar poses rotates the second position by the first heading and adds, headings add, the default pose
     is neutral and inversion gives a two-sided inverse (headings compared modulo 2 pi). Embedding planar poses in 3-D transforms turns composition
     into the transform product and reading the pose back returns it, and difference, distance, norm, angle and the
     expression of planar points in a pose agree with the same definitions.''',
     'inputs', 'every pose, pair or triple of poses, every planar point',
     'Tests compose two fixed poses.',
     T + 'alpose2d.h ' + S + 'alpose2d.cpp src/tools/altransformhelpers.cpp src/tools/almath.cpp',
     [('Pose2D::operator*, inverse, pose2DDifference, pinv', S + 'alpose2d.cpp'),
      ('transformFromPose2D, pose2DFromTransform', 'src/tools/altransformhelpers.cpp')])

prop('C06', 'Expressing velocities, points and poses in another reference frame',
     '''Changing the reference frame of a velocity, a position, a pose or a transform rotates (and, for poses, moves) it exactly by the
     given frame, linearly and compatibly with composing frames. Transform and rotation variants of one operation agree, the
     identity frame changes nothing, and changing to a frame and then to its inverse gives the original back.''',
     'inputs', 'every frame and every velocity, position, pose or transform',
     'Tests use one frame per function.',
     'src/tools/altransformhelpers.cpp src/tools/almath.cpp',
     [('changeReferenceVelocity6D, changeReferencePosition6D, changeReferencePosition3D, changeReferenceTransposeTransform...', 'src/tools/altransformhelpers.cpp')])

prop('C07', 'Positions, velocities, rotations vectors and poses are component-wise vectors',
     '''Addition, subtraction, negation, scaling by a number (either side) and division act component by component on positions, velocities,
     angle triples and the other component-wise types, the compound-assignment operators have the same effect as the binary ones, and operands are left
     untouched. Norms, squared distances, distances, dot and cross products follow their Euclidean definitions in member and
     free forms, normalisation gives a vector of norm 1 in the same direction, and unit-vector tests accept exactly norms within the given tolerance of 1.''',
     'inputs', 'every value of every component-wise type, every scalar',
     'Tests use one or two vectors per operator and many operators are only tested with equal components.',
     ' '.join(S + f for f in 'alposition2d.cpp alposition3d.cpp alposition6d.cpp alvelocity3d.cpp alvelocity6d.cpp alrotation3d.cpp alpose2d.cpp'.split()),
     [('operators and norms of each value type', S)])

prop('C08', 'Equality is exact and component-wise; nearness is symmetric per component',
     '''Two values of any value type are equal exactly when all their components are, and different exactly when they are not equal. They are near
     within a tolerance exactly when every component differs by at most the tolerance (quaternions: up to a common sign, boundary left open), so nearness is reflexive and symmetric, and the default
     tolerance is the documented one.''',
     'inputs', 'every pair of values, every tolerance',
     'A comparison that forgets or confuses a component passes any test that does not vary exactly that component.',
     ' '.join(S + f for f in 'alposition2d.cpp alposition3d.cpp alposition6d.cpp alvelocity3d.cpp alvelocity6d.cpp alrotation3d.cpp alpose2d.cpp alrotation.cpp altransform.cpp alquaternion.cpp'.split()),
     [('operator==, operator!=, isNear, isTransform', S)])

prop('C09', 'Conversion to and from vectors of floats loses nothing and rejects bad sizes',
     '''Writing any value type to a vector of floats and constructing it back gives the same components in the documented order,
     and appending or iterator-style writes agree with it and advance by exactly the number of components. Constructing from a vector of a size that
     is not accepted gives the documented default value (identity or zero), and never a partially filled one; transforms accept 12 or 16
     numbers and rotations 9.''',
     'inputs', 'every value of every type, vectors of every size near the accepted ones',
     'Tests check one value per type and hardly any wrong sizes.',
     ' '.join(S + f for f in 'alposition2d.cpp alposition3d.cpp alposition6d.cpp alvelocity3d.cpp alvelocity6d.cpp alrotation3d.cpp alpose2d.cpp alrotation.cpp altransform.cpp alquaternion.cpp alpositionandvelocity.cpp'.split()),
     [('toVector, writeToVector, constructors from std::vector<float>', S)])

prop('C10', 'Degenerate divisions and normalisations raise and leave values untouched',
     '''Dividing a component-wise value by zero, normalising a null vector or a null quaternion, and interpolating outside [0, 1]
     raise a standard runtime error instead of producing NaN or infinity. The same calls with valid arguments never raise, and a
     compound operation that raises leaves its object unchanged.''',
     'inputs', 'every value and divisor; both sides of each validity limit',
     'Tests call a few of these with zero; which inputs never raise is a universal statement.',
     ' '.join(S + f for f in 'alposition2d.cpp alposition3d.cpp alposition6d.cpp alvelocity3d.cpp alvelocity6d.cpp alrotation3d.cpp alpose2d.cpp alquaternion.cpp'.split()) + ' src/tools/altransformhelpers.cpp',
     [('guards of operator/, operator/=, normalize, transformMean', S)])

prop('C11', 'Exponential and logarithm of rigid motions are inverse; interpolation',
     '''The exponential of a constant velocity applied for one second is the rigid motion of the screw theory closed form, a pure linear
     velocity gives a pure translation, and the exponential of the opposite velocity is the inverse motion. The logarithm returns the
     velocity whose exponential is the given transform for every rotation angle from 0 up to and including half turns about any axis
     (up to the second-order development used for angles below about a milliradian). Interpolation between two transforms
     starts at the first and ends at the second.''',
     'inputs', 'every twist with rotation angle in [0, pi], every rigid transform',
     'Near-zero and half-turn branches are only reached by special inputs; tests reach half turns about coordinate axes only.',
     'src/tools/altransformhelpers.cpp',
     [('velocityExponential, transformLogarithm(InPlace), transformMean', 'src/tools/altransformhelpers.cpp')])

prop('C12', 'Axis rotations, orthogonal bases and axis projections',
     '''The frame completed from a direction is orthonormal, right-handed and has the normalised direction as third axis (exactly so outside the 0.1 mrad
     neighbourhood of the vertical), and a rotation rebuilt from two or three of its axes is that rotation. Projecting a rotation on a coordinate axis gives a
     proper rotation about this axis, a rotation about any axis is its own projection on this axis, the projection's value, in-place, rotation and transform forms agree and keep the translation, and
     null axes are refused. The inertia of a point mass m at p is m (|p|^2 1 - p p^T).''',
     'inputs', 'every direction, angle, rotation and transform',
     'Tests use fixed directions.',
     'src/tools/altransformhelpers.cpp',
     [('axisRotationProjection, orthogonalSpace, transformFromRotation..., axis helpers', 'src/tools/altransformhelpers.cpp')])

prop('C13', 'Angle wrapping, weighted means of angles and clipping',
     '''Wrapping an angle returns the equivalent angle (modulo 2 pi) in ]-pi, pi]. The
     weighted mean of angles is the direction of the weighted sum of unit vectors (the plain mean has unit weights), and it raises for empty or mismatched lists, weights that are not positive and opposite angles. Clipping returns the
     value itself inside the limits and the nearest limit outside, reports exactly whether it changed something, and never
     leaves the limits.''',
     'inputs', 'every angle, every list of weights, every limits and value',
     'Tests wrap a few multiples of pi and clip a few values.',
     'src/tools/almath.cpp almath/tools/altrigonometry.h',
     [('modulo2PI, meanAngle, weightedMeanAngle, clipData, diffAngle helpers', 'src/tools/almath.cpp')])

prop('C14', 'Conversions carry every part over; output-argument forms write everything',
     '''Converting between positions, poses, velocities, displacements and transforms carries over exactly the parts both types have and sets all others to
     zero or the identity, including the heading of a pose, which is the yaw of the transform. Output-argument ("in place") forms give
     the same result as the value-returning forms whatever the output held before, with inputs untouched. A transform built from one axis mask bit and an angle turns about that axis,
     any other mask gives no rotation, and a number is an axis mask exactly when it is a non-empty set of the six axis bits.''',
     'inputs', 'every position, pose, velocity, transform, axis mask and previous content of the output',
     'A forgotten or swapped component shows only for inputs with that component set, or for outputs with stale content; tests start from zeroed outputs.',
     'src/tools/almath.cpp src/tools/altransformhelpers.cpp src/types/alaxismask.cpp src/types/aldisplacement.cpp src/types/altransformandvelocity6d.cpp src/types/alpositionandvelocity.cpp',
     [('position6DFrom..., pose2DFrom..., transformFromPose2D, transformFromRotVec, isAxisMask', 'src/tools')])

prop('C16', 'The digital filter computes its recurrence on every history',
     '''Once as many inputs and outputs as weights are known, each output of the digital filter is the weighted sum of the last inputs divided by the DC gain plus the
     weighted sum of the last outputs, oldest first; before that the input passes through unchanged. Resetting forgets the whole
     history, also when the filter is configured again with fewer or more weights, an unconfigured filter passes its input through, and copies evolve independently.''',
     'inputs histories', 'every input sequence, weights and gain, for filter orders up to 4 and histories up to 9 steps with resets',
     'Tests run two fixed sequences.',
     'almath/dsp/digitalfilter.h src/dsp/digitalfilter.cpp',
     [('DigitalFilter::processFilter, configureFilter, resetFilter', 'src/dsp/digitalfilter.cpp')])

prop('C17', 'The PID controller follows the discrete PID law with dead zone on every history',
     '''Each feedback is the static offset plus the gains times the error (after the dead zone), its discrete derivative (zero on the first step) and
     its integral, using the period given for the step when it is positive and the configured one otherwise; the absolute variant uses the magnitude of the
     derivative, and both share the last error and the integral. Initialising forgets the history and behaves as a new controller, changing gains keeps it, and negative gains, thresholds or
     offsets or a period that is not positive raise, exactly then.''',
     'inputs histories', 'every gain, threshold, period, command and sensor sequence (histories of up to 4 steps including re-initialisation and gain changes)',
     'Tests replay a few fixed sequences without per-step periods.',
     'almath/dsp/pidcontroller.h src/dsp/pidcontroller.cpp',
     [('PIDController::computeFeedback, computeFeedbackAbsolute, initialize, setGains', 'src/dsp/pidcontroller.cpp')])


prop('C18', 'Occupancy map frames: metres to pixels and back',
     '''The origin of an occupancy map is the top-left corner of the square of the given pixel size and resolution centred on the
     given point, with the pixel y axis pointing down. The position of a pixel follows from that affine map, the pixel of a position is the
     nearest one (half-way values away from zero), so the pixel of the position of a pixel is that pixel. Pose and position
     forms agree, poses keep their angle, and metric displacements convert without the origin offset.''',
     'inputs', 'every map size, resolution, centre, every pixel and position', 'Tests convert a few pixels of one map.',
     'almath/types/occupancymapparams.h src/types/occupancymapparams.cpp',
     [('OccupancyMapParams::initOriginOffset, getPixelFrom..., getPositionFromPixel, roundToInt', 'src/types/occupancymapparams.cpp, almath/types/occupancymapparams.h')])

prop('C19', 'Foot collision: segment and box overlap, safe foot moves, ellipse clipping',
     '''Away from parallel segments, the segment intersection test answers true exactly when both crossing parameters lie in [0, 1];
     parallel segments do not intersect. Boxes collide when an edge of one meets an edge of the other or one lies inside the other, whatever
     the order of the boxes, and moving both boxes together changes nothing; the world box of a foot is its local box rotated and translated by the
     foot move. Avoiding foot collision leaves a safe move untouched and reports false, and otherwise bisects its rotation five times, keeping x and y, for
     both support feet. Ellipse clipping leaves moves inside the ellipse untouched and otherwise scales x and y onto it, keeping the angle.''',
     'inputs', 'every segment pair (spread over angle sectors), every box move, every foot move, for the listed box shapes',
     'Tests check a few hand-made boxes and moves.',
     'almath/tools/avoidfootcollision.h src/tools/avoidfootcollision.cpp',
     [('avoidFootCollision, dichotomie, isCollision, computeBox', 'src/tools/avoidfootcollision.cpp'), ('clipFootWithEllipse', 'src/tools/avoidfootcollision.cpp')])

prop('C20', 'Dubins curves: arc, tangent segment, arc, with the shortest segment',
     '''For a circle radius and a target at least four radii away (nearer targets raise an invalid argument, exactly then), the Dubins solution has three
     checkpoints, the last being the target. The first two are the ends of the shortest of the four segments (left-left, left-right, right-left,
     right-right) tangent to a turning circle through the origin and to one through the target, entered and left in the
     turning directions of these circles; both carry the heading of the segment, up to whole turns.''',
     'inputs', 'every target position and heading, every radius between 1e-6 and 1e6',
     'Tests check five targets with one radius.',
     'almath/tools/aldubinscurve.h src/tools/aldubinscurve.cpp',
     [('getDubinsSolutions', 'src/tools/aldubinscurve.cpp')])

prop('C21', 'Shapes keep their dimensions and pills span their two sphere centres',
     '''A shape returns the dimensions it was built from, is visited exactly once, as its own kind, itself, and a visitor that does not implement its kind raises an error.
     The two sphere centres of a pill are at its half extent on both sides of its frame's origin along the frame's z axis. From two distinct centres A and B, wherever they are, computePillParameters gives
     half their distance, and a proper rigid frame at their middle with its z axis from A to B, so that getSphereCentersFromPill gives B then A; equal centres raise an error.''',
     'inputs', 'every dimension, frame, pair of centres (all directions)',
     'Tests use two pairs of centres; the frame is built differently depending on the direction.',
     'almath/geometrics/shapes3d.h almath/geometrics/shapes3d_utils.h src/geometrics/shapes3d.cpp src/geometrics/shapes3d_utils.cpp',
     [('Shape3D::accept, NotImplementedShape3DVisitor', 'src/geometrics/shapes3d.cpp'), ('computePillParameters, getSphereCentersFromPill', 'src/geometrics/shapes3d_utils.cpp')])

prop('C22', 'Mesh building keeps the mesh valid whatever the sequence of calls',
     '''Positions, normals and texture coordinates get consecutive indices; adding or selecting a normal or texture coordinate makes it current. Vertices go between begin and end only, refer to an existing position
     and to the current normal (and texture coordinate, if the mesh has them), which must exist. At end the vertices since begin make one polygon, or triangles or quads if
     they are enough for whole ones. Each other call (out of range, begin within begin, end or vertex outside, missing normal or texture coordinate, incomplete triangle or quad) raises an error,
     std::out_of_range for indices and std::runtime_error for calls in a wrong state, without adding a vertex or a polygon. The getters tell exactly this content, and refuse indices out of range.''',
     'inputs histories', 'every state of up to two positions, normals and texture coordinates, an earlier polygon or not, in each mode, up to eight vertices since begin; then any call (thorough: any two), every index, in and out of range',
     'Tests try some ten sequences of calls.',
     'almath/scenegraph/mesh.h src/scenegraph/mesh.cpp',
     [('Mesh::begin, vertex, end, position, normal, texCoord', 'src/scenegraph/mesh.cpp')])

prop('C23', 'Meshes of boxes and rounded boxes are closed, outward and on the shape',
     '''Adding the mesh of a box or rounded box adds to the given mesh, without changing what is there, positions, normals and polygons that refer to each other only and form a closed oriented surface of the topology of a
     sphere: each edge is traversed once in each direction, every position is used, and the polygons face outwards. Normals have unit length; each vertex is on the box of the half extents given inflated by the radius, at the point that has
     this normal. Boxes have six rectangles, each with one normal, in planes orthogonal to the normals. The functions that create a mesh give the same one, without texture coordinates.''',
     'inputs', 'every positive radius and half extent, each half extent null or positive, 0 and 1 vertices per arc (thorough: 2), meshes empty or in use',
     'Tests write the meshes of some boxes to files or compare numbers of elements.',
     'almath/scenegraph/meshfactory.h src/scenegraph/meshfactory.cpp',
     [('addBoxMesh, addRoundedBoxMesh, createBoxMesh, createRoundedBoxMesh', 'src/scenegraph/meshfactory.cpp')])

prop('C24', 'Scenes and COLLADA documents hold each mesh, transform and colour given',
     '''Adding a sphere, rounded rectangle or pill to a scene, as itself or as a Shape3D, adds its mesh (with the number of vertices per arc of the configuration) with the transform given, and adding a mesh adds this mesh
     with this transform; other shapes, and meshes with texture coordinates, raise an error. The document of a COLLADA scene has one node per mesh added, in order; each node has the matrix of its transform by rows and refers to a geometry of its own, with exactly
     the positions and normals (to the six digits of a stream), vertex counts and vertex indices (in full) of the mesh, and to a material whose effect is the configured colour. All references lead
     to exactly one element. Copies of a scene have the same content and change independently.''',
     'inputs histories', 'every transform, colour and dimension; scenes of up to three meshes; copies and assignments before and after additions',
     'Tests build one scene and look at fixed elements.',
     'almath/scenegraph/scenebuilder.h almath/scenegraph/colladascenebuilder.h almath/scenegraph/colladabuilder.h src/scenegraph/scenebuilder.cpp src/scenegraph/colladascenebuilder.cpp src/scenegraph/colladabuilder.cpp',
     [('SceneBuilder::add', 'src/scenegraph/scenebuilder.cpp'), ('ColladaSceneBuilder', 'src/scenegraph/colladascenebuilder.cpp'), ('addGeometryMesh, addNode, addSourceXYZ', 'src/scenegraph/colladabuilder.cpp')])

prop('C30', 'Exchange with Eigen preserves values; the mean transform is the middle one',
     '''Converting transforms, positions and velocities to and from Eigen (matrices in both storage orders, blocks, compact, affine and isometric transforms, matrix, vector and quaternion with translation) keeps every coefficient, by value or into an existing object, and quaternions
     stand for the same rotation. Casting the mass properties of a body keeps each of them. The mean of transforms has the mean translation and the rotation of the normalised sum of their quaternions, each
     taken on the side of the first one: the common rotation for equal ones, for two about one axis the rotation halfway the short way round; the mean of none raises an error.''',
     'inputs', 'every transform (quaternions: rotations about the coordinate axes and all proper rotations), means of up to three (equal rotations: four)',
     'Tests convert one matrix and average two or three transforms.',
     'almath/scenegraph/almatheigen.h almath/scenegraph/bodymass.h',
     [('toEigenMatrix34, toALMathTransform, averageTransforms', 'almath/scenegraph/almatheigen.h')])

prop('C25', 'URDF elements read and written faithfully; poses compose as rigid motions',
     '''Accessors of URDF joints, links, inertials, visuals and geometries return exactly what the document says, the documented default when an
     optional part is absent, and raise when a required one is missing or malformed; a vector is exactly three blank-separated numbers, zero (all ones) only when each is. A pose is the translation xyz with the rotation
     Rz(yaw) Ry(pitch) Rx(roll); product, inverse, identity and equality of poses are those of these rigid motions, the angles extracted from a rotation
     rebuild it (gimbal lock included), and a pose written to a document, where identity parts are left out, reads back as the same pose.''',
     'inputs', 'every numeric value; all presence patterns of optional parts and all patterns of leading zeros of vectors',
     'Tests read a few documents with round values and compose poses with quarter turns.',
     'almath/scenegraph/urdf.h src/scenegraph/urdf.cpp almath/scenegraph/urdfeigen.h',
     [('Joint, Link, Inertial, Visual, Geometry accessors, Array3dTranslator, Pose', 'src/scenegraph/urdf.cpp'), ('eigenQuaternionFromUrdfRpy, urdfRpyFromEigenMatrix3, toEigenTransform', 'almath/scenegraph/urdfeigen.h')])

prop('C26', 'URDF robot tree: exactly the consistent documents are accepted',
     '''A robot tree is built from a document exactly when links and joints have unique names, the parent and child of every joint exist, all links hang,
     possibly through several joints, from one single root link and no joint mimics itself (directly or through others) or a missing joint; otherwise
     building it raises. Links, joints and the root are found by name as they are in the document, unknown names raise. Removing the root joint (only
     when there is exactly one) or a leaf joint (only a leaf) takes away this joint and the link it leaves alone, nothing else, and the remaining
     document is consistent again.''',
     'inputs', 'every assignment of parents and children to two joints over three links or a missing one, every mimic assignment of three joints, every tree of four links, in both document orders (thorough: in every order)',
     'Tests build a few trees of up to four links.',
     'almath/scenegraph/urdf.h src/scenegraph/urdf.cpp',
     [('RobotTree, RobotTreeP, transitively_mimics, rm_root_joint, rm_leaf_joint', 'src/scenegraph/urdf.cpp')])

prop('C27', 'Moving the root frame or the root link of a URDF tree keeps the same system',
     '''When the root frame is moved by a pose p, everything attached to the root link (inertials, visuals, collisions, joints) which was at q gets at p^-1 q, an
     absent origin being the identity, and nothing else changes. When another link is made the root, exactly the joints between both have parent and
     child exchanged and axis reversed (an absent axis being x), each link left on the way takes the frame of the joint it now hangs from, so that every
     element keeps its place relative to its neighbours; it raises exactly when a joint on the way is floating or planar.''',
     'inputs', 'every pose and every axis, presence patterns of origins and axes, all joint types, paths of one and two joints',
     'Tests move a handful of trees with simple poses.',
     'almath/scenegraph/urdf.h src/scenegraph/urdf.cpp',
     [('transport_root_link_frame, premul, flip_root_link_joint, define_as_root_link', 'src/scenegraph/urdf.cpp')])

prop('C28', 'URDF traversals and edits visit every joint in order and change only their own',
     '''Joints are visited depth first, siblings in the order of the document; a visit refused prunes what is below and only this, and every visit begun is
     finished after those below it. Making a joint fixed or floating sets its type, drops its axis and changes nothing else; all continuous joints and only
     they are made fixed at once, removing subtrees takes away exactly the joints with a chosen joint at or above them, and both return the names in the order of the
     visit. The dot graph has one edge per joint in this order. Transforming file names applies the function exactly once to the file of each mesh and
     texture, wherever it is, and to nothing else.''',
     'inputs', 'every tree of four links, all types of joints, subsets of joints chosen, numbers of elements up to two',
     'Tests visit one tree and edit one joint of each type.',
     'almath/scenegraph/urdf.h src/scenegraph/urdf.cpp',
     [('traverse_joints, makeJointFixed, makeJointFloating, makeContinuousJointsFixed, removeSubTreeIfJoint, UrdfDotPrinterVisitor, transform_filenames', 'src/scenegraph/urdf.cpp')])

prop('C29', 'Merging the inertias of rigidly attached links conserves the mass properties',
     '''The union of two bodies has the sum of their masses, their common centre of mass and the sum of their inertias taken there (parallel axes rule), given
     in the basis of the first. Squashing the mass of a joint moves the child link's mass into the parent link in this way, at the place that the joint's
     origin gives to it, leaves the child massless and changes nothing else. Squashing all fixed joints leaves each link which does not hang from a fixed joint with
     the mass, first moment and inertia of everything rigidly attached to it, and none elsewhere; making massless joints fixed
     does this too, and makes fixed exactly the joints whose child link is then left massless, whose names it returns.''',
     'inputs', 'every mass, centre, inertia and joint offset; joint and body angles about single axes (any angle, up to two of them composed); links with and without inertial; trees of three links (thorough: four), every choice of fixed joints',
     'Tests squash two trees with fixed numbers.',
     'almath/scenegraph/urdf.h src/scenegraph/urdf.cpp almath/scenegraph/urdfeigen.h',
     [('squashInertial, addPointMassInertia, urdfInertialToEigen', 'almath/scenegraph/urdfeigen.h'), ('squashJointMass, squashFixedJointsMass, makeMasslessJointsFixed', 'src/scenegraph/urdf.cpp')])

prop('C31', 'Animation documents: accessors, sorted keys and labels, validity checks',
     '''What is put in an element of an animation (frame, fps, side, unit, mute, actuator, abscissa, ordinate, value) is what is got from it, in one attribute, changing nothing else; negative frames, fps that are not positive, unknown sides and units, and missing attributes
     (but mute, false) raise an error. In a curve whose keys are sorted, whatever other children lie between them, get_key finds the key of a frame if and only if there is one; require_key returns it or inserts it so
     that the keys stay sorted, each frame once, changing no other child; labels are inserted after those of the same frame. Tangents are found, required and erased by side, a required tangent, curve
     or animation being added only if missing. A refused request changes nothing. Ranges list exactly the children of their kind in order. A curve is accepted exactly if successive keys have increasing frames and the tangents between them exist and have
     abscissas within the interval; an animation exactly if its version is 2.0 and each curve has an actuator, a fps, a unit and is accepted.''',
     'inputs histories', 'up to three sorted keys or labels, other children anywhere, every position of the frame looked for; up to three children of a key; up to three keys with each fault of intervals, up to two curves with each fault (thorough: two faults); numbers opaque but for frames and fps',
     'Tests look for keys in two documents.',
     'almath/scenegraph/qianim.h src/scenegraph/qianim.cpp',
     [('require_key, get_key_optional, add_label', 'src/scenegraph/qianim.cpp'), ('check_cubic_bezier, apply_cubic_bezier, check_all', 'almath/scenegraph/qianim.h')])

prop('C32', 'The text of a value shows each component once, in order, under its name',
     '''Writing a value to a stream writes to this stream, for each component in the order of the type (for matrices, by rows, one line each), its name (but for matrices) followed by the number, with as many digits as the stream's precision;
     transforms are shown as 4x4 matrices whose last row is 0 0 0 1. Writing two values writes both. toSpaceSeparated gives the same text.''',
     'inputs', 'every value of each type; two precisions',
     'Tests do not look at the text.',
     'almath/tools/almathio.h src/tools/almathio.cpp',
     [('operator<<, toSpaceSeparated', 'src/tools/almathio.cpp')])

prop('C33', 'Rigid body systems: builders, name checks, and the system of a URDF document',
     '''A builder is asked for exactly the link or static frame given to add, through any decorator or adapter; joints not named get the name of the configuration's format; static frames are dropped if and only if the configuration says so;
     InertiaEraser changes the rotational inertia only, to zero. NamesChecker hands over a request exactly when the parent is known (for links: the galilean frame or a link; for static frames also a static frame), the new frame is not known, and its joint is not the name of a
     joint or static transform handed over; a request that fails, there or in the builder, leaves the known names as they were. For a URDF document, after the removal of the root joint and the fixing of continuous joints if asked, and the fixing of massless joints, the builder is asked
     for the root link as a free flyer at the identity in the frame of empty name, then for each joint in the order of traversal: a static frame if it is fixed, else a link with the joint's names, origin and type and the link's mass; types and axes
     that have no counterpart are errors, after the requests for the joints before them. A branch whose first link is massless (the root) is not explored.''',
     'inputs histories', 'histories of up to five requests with every coincidence of names; documents of up to three links (thorough: four) with every tree, pattern of masses and of fixed joints; every type and class of axis; numbers opaque',
     'Tests look at a dozen documents and name collisions.',
     'almath/scenegraph/rigidbodysystembuilder.h src/scenegraph/urdfrigidbodysystemtraverser.cpp',
     [('Interface::add, NamesChecker, InertiaEraser, Adapter', 'almath/scenegraph/rigidbodysystembuilder.h'), ('buildRigidBodySystemFromUrdf', 'src/scenegraph/urdfrigidbodysystemtraverser.cpp')])

prop('C34', 'qi.geometry transforms: algebra, nearness, text, exchange with almath',
     '''Values of qi.geometry are made from their components, x, y, z, w for quaternions; an angle and a non-null axis of any length give the unit quaternion of that rotation; norm is the root of the sum of squares, isNormalized(q, e) holds if and only if the norm is nearer to 1 than e,
     normalize and normalized divide a non-null quaternion by its norm. For transforms with unit quaternions, the product is the composition of the rigid motions (with Hamilton's product of the quaternions), inverse the inverse motion, also when a result replaces an
     argument; toEigenAffine3d, transformFromQiTransform and qiTransformFromALMath keep the motion; planar poses become motions of the plane, and a motion gives the pose of its position and of the heading of its x axis. isNear compares the distance of the matrices with
     epsilon times the norm of the smallest: reflexive, symmetric, blind to the sign of the quaternions. The text of a value names its type and shows each component once, in the order x, y, z, w. The geometry module advertises each of its functions once, under its own name.''',
     'inputs', 'every value (isNear: turned about one axis, or moved); the functions of the module: opaque numbers, turns about z',
     'Tests of this part are not built here.',
     'almath/scenegraph/qigeometry.h almath/scenegraph/almathqigeometry.hpp geometry_module/src/registration.cpp qi/geometry/geometry.idl.qi',
     [('makeQuaternionFromAngleAxis, operator*, inverse, isNear, operator<<', 'almath/scenegraph/qigeometry.h'), ('transformFromQiTransform, qiTransformFromALMath, pose2DFromQiTransform', 'almath/scenegraph/almathqigeometry.hpp'), ('register_geometry_module', 'geometry_module/src/registration.cpp')])

prop('C35', 'qi durations and ROS times: exact exchange, clipped to the valid instants',
     '''toValidRosTime gives the instant of a 64-bit count of nanoseconds exactly, if it lies between 1 ns and 4294967295.999999999 s; earlier ones become the former, later ones the latter. toQiDuration gives the nanoseconds of a time exactly, so that the way there and
     back changes nothing within these bounds.''',
     'inputs', 'every 64-bit count',
     'Tests of this part are not built here.',
     'almath/scenegraph/qirostime.h',
     [('toValidRosTime, toQiDuration', 'almath/scenegraph/qirostime.h')])

prop('C36', 'Python: text and products of values show and use every component',
     '''What almath.i adds to the types for Python: the text of a value (__repr__, __str__) begins with the name of the type, shows each component once, in the order of the type and under its name (matrices: by rows, for __str__ one line each), closes every bracket and
     fits its buffer whatever the values; the text of a list is made of the ones of its elements in order; a number times a value is the value with each component multiplied; a matrix times a point is its image. None changes the value.''',
     'inputs', 'every value of each type; lists of up to three elements; numbers opaque',
     'Python tests look at no text, and the binding is not built here.',
     'almath.i',
     [('__repr__, __str__, __rmul__, __mul__', 'almath.i')])

prop('C37', 'No hidden state: results depend on arguments alone, const arguments are kept',
     '''No function of the library writes a variable of static or thread storage duration (but the initialisation of constants, whose values do not depend on any argument), uses a source of values other than its arguments (clock, random numbers, environment, standard input, the value of an address
     as text), or changes what the threads of a process share (locale, rounding mode, signals, handlers). No function writes through an argument it takes by reference or pointer to const, nor a const member function its object. So a call gives the same result whatever was called before, and calls on different
     objects in different threads do not disturb each other.''',
     'histories schedules inputs', 'every function of the sources and headers, every call history and interleaving of calls',
     'Tests run one history in one thread.',
     'almath src',
     [('every function defined in the repository', 'almath/ and src/')])

prop('C38', 'Failures are standard exceptions; no call ends the process',
     '''Every exception the library throws is derived from std::exception; no function calls exit, abort (but for values that are none of the enumerators of an argument), std::terminate or the like; no exception thrown by the library leaves a destructor or a function declared not to throw. Assertions are left out.''',
     'inputs', 'every throw site and every function that must not throw',
     'Tests see the failures of a few inputs.',
     'almath src',
     [('every throw site', 'almath/ and src/')])

prop('C39', 'Orientations exact up to rounding give no NaN',
     '''A matrix, quaternion or angle that is a rotation only up to rounding (within 1e-3) is converted, normalised, measured and projected without a square root of a
     negative number or an arc cosine beyond one: the conversion from transforms to quaternions, displacements and angles, the logarithm, the axis-angle form of any quaternion longer than 1/2, normalisation, norms and distances,
     and the projection on an axis (which may raise instead) return numbers, never NaN. Where denominators vanish or nearly do (no rotation, quarter, third and half turns about the axes and diagonals, motions without rotation, quaternions of
     half turns), logarithm, exponential, mean, quaternions, angles and normalisation are finite as well.''',
     'inputs', 'every matrix with entries within 1e-3 of the half spaces that contain the rotations; every vector; the 24 rotations of the cube with any translation; scaled identity and half-turn quaternions',
     'Tests convert a few matrices that happen to round the right way.',
     'src/tools/altransformhelpers.cpp src/types/alquaternion.cpp src/types',
     [('quaternionFromTransform, transformLogarithmInPlace, axisRotationProjectionInPlace', 'src/tools/altransformhelpers.cpp'), ('angleAndAxisRotationFromQuaternion', 'src/types/alquaternion.cpp')])

def main():
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p['title']) <= 80, p['id']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in P:
        c = props.PROPS.get(p['id'])
        if c is None:
            assert p['id'] in NA, p['id']
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    for k in props.PROPS:
        assert k in ids, k
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
                   'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())]}, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(checks), 'checks')


if __name__ == '__main__':
    main()
