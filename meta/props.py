# The property list: (id, title, statement, over, quantifier text, files, [(mechanism, where)], why tests cannot)
W = "The unit tests evaluate it at a handful of literal values; it must hold for every value of the inputs"
P = []
NA = {}
def p(id, title, statement, text, files, mech, why=W, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

T = "src/types/altransform.cpp"
TH = "src/tools/altransformhelpers.cpp"
AM = "src/tools/almath.cpp"

p("P01", "Transforms compose as rigid-body homogeneous matrices",
  "For all transforms, the product (in both its value and in-place forms) is the product of the 4x4 homogeneous matrices, it is associative and has the default transform as identity. The inverse functions and the relative-change functions return the matrix that composes with their argument to the identity (resp. to the other argument) whenever the rotation block is orthonormal. Applying a transform to a position is the matrix-vector product, also through the in-place and free-function forms.",
  "all finite rotation blocks with entries in [-1,1] (orthonormal for the inverse laws), all translations within 10 m",
  [T, TH, AM, "almath/types/altransform.h"], [("Transform::operator*, *=, inverse, diff", T), ("transformInverse, transformDiff, transformInvertInPlace, transformPreMultiply", TH)])
p("P02", "Rotation matrices compose, invert and act on vectors as matrices",
  "For all rotation matrices, the product is the matrix product, the inverse (transpose) composes with the matrix to the identity, and applying a rotation to a 3D position is the matrix-vector product, for the member, operator, in-place and free-function forms alike.",
  "all matrices with entries in [-1,1] (orthonormal for the inverse laws), all vectors within 10 m",
  ["src/types/alrotation.cpp", AM], [("Rotation::operator*, transpose, inverse", "src/types/alrotation.cpp")])
p("P03", "Elementary rotation and translation builders give the documented matrices",
  "Building a rotation or a transform from an angle about a coordinate axis, from an angle about an arbitrary axis, from three successive angles or from a translation gives the matrix of that rotation (right-handed, translation untouched), the same through the static, free-function and setter forms. An angle-axis rotation about a non-unit axis is the rotation about the normalised axis, and a null axis is refused with an exception.",
  "all angles within [-7,7] rad, all axes in the stated norm ranges, all translations within 10 m",
  ["src/types/alrotation.cpp", T, TH], [("fromRotX/Y/Z, rotationFromAngleDirection, from3DRotation", "src/types"), ("transformFromRotX.., transformFromPosition", TH)])
p("P04", "Rotation/transform validity tests and normalisation are exact at their tolerance",
  "A matrix is accepted as a rotation (or as a rigid transform) exactly when it is orthonormal and direct within the given tolerance: rigid ones are accepted, matrices off by more than the tolerance in a row norm, a dot product or the determinant, and matrices with any NaN or infinite entry, are refused. Normalising a matrix close to a rotation returns a matrix that is a rotation, keeps a rotation as it is, and leaves the translation untouched.",
  "all matrices with entries in [-2,2], all tolerances in [1e-5,0.1], every position of a NaN or infinite entry",
  [T, "src/types/alrotation.cpp", TH], [("Transform::isTransform, Rotation::isRotation, normalizeTransform, normalizeRotation", "src/types")])
p("P05", "Quaternions form the Hamilton algebra and act as rotations",
  "Quaternion product, conjugate, inverse, norm and normalisation follow Hamilton's algebra for all component values: the product is bilinear and associative, the inverse composes to the identity, the norm is multiplicative and normalising returns a unit quaternion of the same direction. Normalising or inverting a null quaternion throws instead of returning garbage.",
  "all components in [-1,1], unit quaternions for the rotation laws, norms down to 2^-9 for normalisation",
  ["src/types/alquaternion.cpp"], [("Quaternion::operator*, inverse, normalize, norm", "src/types/alquaternion.cpp")])
p("P06", "Quaternion, matrix, Euler and angle-axis forms describe the same rotation",
  "Converting a rotation between quaternion, rotation matrix, transform, Euler angles and angle-axis form preserves the rotation: every conversion composed with its inverse returns the original up to the sign of the quaternion, in each of the branches selected by the largest diagonal entry. None of the conversions returns NaN for a rotation that is the identity up to rounding.",
  "all unit quaternions, unit axes and angles in [-2pi,2pi] outside the stated neighbourhoods of the singularities",
  [TH, AM, "src/types/alquaternion.cpp"], [("quaternionFromTransform, rotationFromQuaternion, angleAndAxisRotationFromQuaternion", TH)])
p("P07", "Position6D and Rotation3D round-trip through transforms, gimbal lock included",
  "A Position6D or Rotation3D converted to a transform is Rz*Ry*Rx with the given translation, and converting back returns angles that rebuild the same matrix. At gimbal lock the extraction still returns finite angles that rebuild the matrix.",
  "all angles in [-2pi,2pi] and positions within 10 m outside a 0.2 rad band around gimbal lock, plus exact gimbal-lock matrices",
  [AM, TH], [("transformFromRotation3D, rotation3DFromTransform, position6DFromTransform, transformFromPosition6D", TH)])
p("P08", "Pose2D is the planar rigid-motion group",
  "For all 2D poses, composition is planar rigid-motion composition with added angles, it is associative, the inverse and in-place inverse compose to the identity, and the difference of two poses composes with the first to give the second. Acting on a 2D position rotates and translates it, polar construction places the point at the given radius and angle, and conversion to and from a transform preserves the pose.",
  "all poses within 10 m with angles in [-7,7] rad; products of up to three poses",
  ["src/types/alpose2d.cpp", TH, AM], [("Pose2D::operator*, inverse, diff, fromPolarCoordinates", "src/types/alpose2d.cpp"), ("transformFromPose2D, pose2DFromTransform, pose2dInvertInPlace", TH)])
p("P09", "Vector types obey vector-space arithmetic",
  "For every vector-like type, addition, subtraction, negation, multiplication and division by a scalar act component by component, value and compound forms agree, and compound forms modify and return their left operand. Constructors place every argument in its documented component.",
  "all components in [-10,10] or scaled by 100; scalars in [-10,10], divisors away from zero",
  ["src/types"], [("operator+, -, *, /, +=, -=, *=, /=", "src/types/*.cpp")])
p("P10", "Equality is exact and isNear is a symmetric per-component tolerance",
  "Two values of the same type compare equal exactly when all their components are equal, and != is its negation, including for NaN, infinities and signed zeros. isNear holds when every component differs by less than the tolerance and fails as soon as one component differs by more; it is reflexive and symmetric, treats opposite quaternions as the same rotation, uses 1e-4 by default and is false when a component is NaN.",
  "every float bit pattern for equality and NaN; all components in [-10,10] and tolerances in [1e-4,2] for isNear",
  ["src/types"], [("operator==, operator!=, isNear", "src/types/*.cpp")])
p("P11", "Division by zero and normalisation of null vectors are refused",
  "Dividing any vector-like value by zero (of either sign), in value or compound form, throws and leaves the left operand unchanged, and dividing by any other value does not throw. Normalising a vector whose norm is zero throws.",
  "every float bit pattern of the operands",
  ["src/types"], [("operator/, operator/=, normalize", "src/types/*.cpp")])
p("P12", "Norms, distances, dot and cross products are the Euclidean ones",
  "Norm, squared distance, distance, dot and cross product, normalisation, unit-vector and orthogonality tests of the 2D/3D/6D types compute the Euclidean quantities for all inputs, member and free forms agreeing. Distance is symmetric and null between equal values, normalised vectors have norm one and keep their direction, and distances between poses ignore orientation.",
  "all components in [-10,10] (norms bounded away from zero for normalisation)",
  ["src/types"], [("norm, distance, distanceSquared, dotProduct, crossProduct, normalize, isUnitVector, isOrthogonal", "src/types/*.cpp")])
p("P13", "Vector-of-float serialisation round-trips and sizes are checked",
  "Writing any value into a vector of floats and reading it back returns the same value bit for bit, in the documented component order, whether the vector is returned, appended to or written in place. Building a value from a vector of the wrong length yields the documented default instead of reading out of bounds.",
  "every float bit pattern; vector lengths 0 to the type's largest accepted length plus one",
  ["src/types"], [("toVector, writeToVector, constructors from std::vector<float>", "src/types/*.cpp")])
p("P14", "modulo2PI returns the equivalent angle in the principal interval",
  "For every angle the in-place and value modulo-2pi functions return an angle that differs from the input by a whole number of turns and lies in the principal interval between -pi and pi.",
  "all angles in the stated range (several hundred turns)", [AM], [("modulo2PI, modulo2PIInPlace", AM)])
p("P15", "clipData clamps into the interval and reports clipping",
  "Clipping a value into an interval leaves it unchanged and reports no clipping when it already lies inside, and otherwise moves it to the nearest bound and reports the clipping.",
  "every float bit pattern with min <= max", [AM], [("clipData", AM)])
p("P16", "Mean angles are the direction of the vector mean",
  "The (weighted) mean of angles is the direction of the (weighted) sum of the unit vectors at these angles, independent of whole turns and order of the inputs. Empty input, mismatched lengths, non-positive weights and an undefined mean (null vector sum) are refused with an exception.",
  "lists of up to four angles in [-7,7] rad and positive weights", [AM], [("meanAngle, weightedMeanAngle", AM)])
p("P17", "Exponential, logarithm and interpolation of rigid transforms are consistent",
  "The exponential of a 6D velocity is the rigid transform reached by following this velocity for a unit of time, and the logarithm of a rigid transform is the velocity whose exponential gives it back, small rotations and half turns included. Interpolating between two transforms follows that constant velocity, so it returns the first at 0, the second at 1, and refuses parameters outside [0,1].",
  "all axes, angles and linear velocities in the stated ranges", [AM, TH], [("velocityExponential, transformLogarithm, transformMean", TH)])
p("P18", "Changing the reference frame rotates without translating",
  "The change-of-reference functions rotate a velocity, position, transform or pose by the rotation part of the given frame, whatever the translation of the frame, and the in-place and value forms agree.",
  "all rigid frames from a unit quaternion, all vectors within 10", [AM, TH], [("changeReference*", "src/tools")])
p("P19", "Component conversions and cross-type products keep every component",
  "Conversions between positions, poses, rotations and transforms copy exactly the documented components and fill the others with zeros or the identity. Cross-type operations (rotating a vector by an Euler rotation, building a rotation from axes, pose or position differences of transforms, point-mass rotational inertia, 2D pose to 6D position) return the documented composition.",
  "all components within 10", [AM, TH], [("position6DFromPose2D, rotationFromAxesXY/XZ/YZ/XYZ, position6DFromTransformDiff, pointMassRotationalInertia...", "src/tools")])
p("P20", "The PID controller outputs the PID sum and reset restores a fresh controller",
  "After any sequence of updates, the controller output is the static offset plus the proportional gain times the error plus the integral gain times the error accumulated over the periods plus the derivative gain times the error variation over the period used (null at the first update); the error is taken after the dead band of the threshold, and the absolute form ignores the sign of the variation. A period given with an update replaces the configured one for this update. Resetting restores the behaviour of a newly built controller, gain changes apply to later updates, and negative gains, thresholds or offsets and periods that are not positive are refused.",
  "histories of up to four updates with all gains, periods, set points and measures in range",
  ["src/dsp/pidcontroller.cpp", "almath/dsp/pidcontroller.h"], [("PIDController::computeFeedback, reset, setters", "src/dsp/pidcontroller.cpp")], over=("inputs", "histories"))
p("P21", "The digital filter computes its difference equation over any history",
  "After configuration with input and output coefficients, the filter returns its input until enough inputs and outputs are known, and then every output sample equals the difference equation over the last inputs divided by the static gain and the last outputs (oldest first). Resetting makes the past irrelevant, copies do not share their history, and a filter that was never configured returns its input.",
  "histories of up to six samples, one to three input and up to three output coefficients, all values in range",
  ["src/dsp/digitalfilter.cpp", "almath/dsp/digitalfilter.h"], [("DigitalFilter::configureFilter, processFilter, resetFilter", "src/dsp/digitalfilter.cpp")], over=("inputs", "histories"))
p("P22", "Occupancy map pixel and world coordinates are inverse",
  "The origin of an occupancy map is half its size up and left of the requested centre; a pixel converts to the position at its number of cells from the origin, the image's y axis being reversed, and converting this position back returns the pixel. A position converts to the nearest pixel, differences of positions are converted without the offset, orientations are kept, and rounding goes to the nearest integer, away from zero for ties.",
  "all sizes, resolutions and origins in the stated ranges", ["almath/types/occupancymapparams.h", "src/types/occupancymapparams.cpp"], [("OccupancyMapParams", "types")])
p("P23", "Foot box collision is decided correctly and avoided by reducing the rotation",
  "Two segments that cross intersect, in their common point; segments that do not cross, and parallel ones, do not. Two boxes are in collision exactly when they overlap, wherever one is placed with respect to the other, one inside the other included. Moving a box moves each of its corners by the pose. Avoiding a foot collision leaves a move without collision unchanged and returns false; otherwise it returns true, keeps the translation and reduces the rotation, by steps of a 32nd, to one without collision, or none, such that one step further there is a collision.",
  "boxes with corners in clockwise order; positions and angles in the stated ranges, not within 1 mm of touching", ["src/tools/avoidfootcollision.cpp"], [("avoidFootCollision, areTwoBoxesInCollision, dichotomie, computeBox, intersectionSegment2D", "src/tools/avoidfootcollision.cpp")])
p("P24", "Ellipse clipping keeps moves inside the reachable ellipse",
  "A foot move inside the ellipse of the maximum steps is left unchanged and the result is false. A move outside is brought along its own direction to the point of the ellipse in that direction, its rotation is kept, and the result is true. The signs of the limits do not matter.",
  "all moves and limits in the stated ranges", ["src/tools/avoidfootcollision.cpp"], [("clipFootWithEllipse", "src/tools/avoidfootcollision.cpp")])
p("P25", "Dubins solutions reach the target along the shortest common tangent",
  "For a target at least four radii away, the solution is made of three poses: the two ends of a straight part which is tangent, in the direction of travel, to the turning circle left from and to the turning circle arrived on, and the target itself, unchanged. The tangent is the one with the shortest straight part among left-left, left-right, right-left and right-right. The orientation of the two first poses is, modulo a full turn, the direction of the straight part. A nearer target is refused with an exception.",
  "targets within the stated ranges", ["src/tools/aldubinscurve.cpp"], [("getDubinsSolutions", "src/tools/aldubinscurve.cpp")])
p("P26", "Rigid-body inertia operations transport mass and inertia correctly",
  "Squashing two bodies gives the total mass, the barycentre, the orientation of the first, and the sum of the two inertias rotated into that orientation and transported to the barycentre by the parallel-axis theorem. A point mass adds the inertia of a point mass. The conversion of an urdf inertial keeps mass and centre and rotates the inertia by its roll, pitch and yaw into the body frame. Roll, pitch, yaw angles and the rotation they stand for convert to each other.",
  "all masses, centres and symmetric inertia tensors in the stated ranges", ["almath/scenegraph/urdfeigen.h", "almath/scenegraph/bodymass.h"], [("squashInertial, addPointMassInertia, urdfInertialToEigen, toEigenTransform, urdfRpyFromEigenMatrix3", "almath/scenegraph/urdfeigen.h")])
p("P27", "Eigen conversions and transform averaging preserve values",
  "Converting transforms, positions and velocities to the equivalent Eigen types and back returns the same values with rows and columns in place; the Eigen quaternion of a transform is that of its rotation. Averaging a set of equal rotations returns the rotation, averaging two turns about an axis gives the turn half way between them along the shortest way, in either order, and the average translation is the mean of the translations. An empty range is refused.",
  "all components within the stated ranges", ["almath/scenegraph/almatheigen.h"], [("toEigen..., toALMath..., averageTransforms", "almath/scenegraph/almatheigen.h")])
p("P28", "Axis-rotation projection keeps only the rotation about the axis",
  "Projecting a rotation or transform on the rotations about a coordinate axis, given with any length, yields a rotation about that axis, leaves a rotation already about that axis unchanged and keeps the translation; a null axis is refused. The orthogonal space built from a direction is a direct orthonormal base whose third axis is this direction.",
  "all unit axes / rotations in the stated ranges", [AM, TH], [("axisRotationProjection, orthogonalSpace", "src/tools")])
p("P29", "QiAnim keys and channels round-trip and interpolate in order", "Reading an animation yields the keys in the documented order with the values written.", "documents up to the stated sizes", ["almath/scenegraph/qianim.h"], [("qianim", "almath/scenegraph")])
p("P30", "Urdf elements read as the documented values, with defaults",
  "Reading a link, joint, inertial, visual, limit or mimic element of a urdf file yields the values it holds, and the documented ones for what is missing: a null origin, the x axis, a unit multiplier and scale, a null offset and limit. Missing mandatory attributes, unknown joint types, geometries without shape and triples which are not three numbers are refused. Triples may be separated by any blanks; a triple or a pose which is written and read back is the same, and the identity is written as nothing. The visuals of a link keep the order of the file, and transforming file names rewrites exactly the names of the visual meshes and textures, once each.",
  "elements with every subset of their attributes, every number within 10, every kind of blank",
  ["src/scenegraph/urdf.cpp", "almath/scenegraph/urdf.h"], [("Pose, Joint, Link, Inertial, Visual, Geometry, Array3dTranslator, transform_filenames", "src/scenegraph/urdf.cpp")], over=("inputs",))
p("P31", "Displacements compose like transforms; pairs and axis masks are exact",
  "Composing displacements (a position and a quaternion), by value or in place, even with itself, adds the second translation rotated by the first quaternion and multiplies the quaternions, so that it agrees with the product of the equivalent transforms; the default displacement is the identity, and a displacement and its transform have the same translation and rotation. Displacements, transform and velocity pairs, and position and velocity pairs are near when both parts are within the tolerance. Writing a position and velocity pair gives the position, then the velocity. An integer is an axis mask exactly when it is a non-empty set of the six axes.",
  "all positions within 10, all quaternions with components in [-1,1] (unit ones for transforms), every integer mask, every float bit pattern of a pair",
  ["src/types/aldisplacement.cpp", "src/types/alpositionandvelocity.cpp", "src/types/altransformandvelocity6d.cpp", "src/types/alaxismask.cpp", TH],
  [("Displacement::operator*, *=, isNear", "src/types/aldisplacement.cpp"), ("transformFromDisplacement, displacementFromTransform", TH), ("isAxisMask", "src/types/alaxismask.cpp")])
p("P32", "Shapes keep their dimensions, dispatch by type, and pills match their ends",
  "A shape returns the dimensions it was built with, and accepting a visitor makes exactly one visit, with the shape itself and the overload of its type; a visit that is not implemented throws a runtime error with the visitor's message. The sphere centres of a pill are at plus and minus its half extent along the z axis of its frame, and the parameters computed from two centres are half their distance and a direct orthonormal frame half way between them, whose z axis points from the first to the second, so that the sphere centres of this pill are the two given ones.",
  "every float bit pattern for dimensions; all frames, half extents and directions in the stated ranges",
  ["src/geometrics/shapes3d.cpp", "src/geometrics/shapes3d_utils.cpp", "almath/geometrics/shapes3d.h"],
  [("accept, visit, getters", "src/geometrics/shapes3d.cpp"), ("getSphereCentersFromPill, computePillParameters", "src/geometrics/shapes3d_utils.cpp")])
p("P33", "The rigid body system builders refuse bad names and forward the rest unchanged",
  "A names checker refuses, with a runtime error and without forwarding it, a link whose parent body is unknown, whose body has the name of a known body or static frame, or whose joint has the name of a known joint or static transform, and a static frame under the same rules, its parent being any body or static frame; a refused addition changes nothing for the following ones. Accepted additions are forwarded once, unchanged. The inertia eraser only sets the rotational inertia to zero, an adapter only converts the scalar type, names not given follow the configured format, and static frames are skipped when the configuration says so.",
  "histories of up to three additions, every equality pattern between names, all pose and mass values in range",
  ["almath/scenegraph/rigidbodysystembuilder.h"], [("NamesChecker, InertiaEraser, Adapter, Decorator, Interface::add", "almath/scenegraph/rigidbodysystembuilder.h")], over=("inputs", "histories"))

p("P34", "Urdf trees are consistent, and stay so when they are edited",
  "A robot description is accepted exactly when link and joint names are unique, the joints join all the links in a single tree, and the mimicked joints exist without mimic loops; it is refused with a runtime error otherwise. Traversal discovers the joints from the root, depth first, siblings in file order, finishes each one, and skips the sub-tree of a joint whose discovery returns false. Removing leaf joints, the single root joint or the sub-trees of given joints removes exactly these joints and their links, from the tree and from the file, what cannot be removed is refused and changes nothing, and the edited tree is the one read from the edited file. Making joints fixed, floating, or all continuous ones fixed changes these joints only. Mimics are flat when no mimicked joint mimics another one.",
  "files of three links with every equality pattern of names, trees of four links of every shape, in file order or reversed, and one edit after another",
  ["src/scenegraph/urdf.cpp", "almath/scenegraph/urdf.h"], [("RobotTree, checks of the constructor, rm_leaf_joint, rm_root_joint, removeJointSubTrees, traverse_joints, makeJointFixed", "src/scenegraph/urdf.cpp")], over=("inputs", "histories"))
p("P35", "Urdf poses compose, and re-rooting a robot leaves it the same mechanism",
  "The product and the inverse of urdf poses are those of the rigid transforms they stand for, the default pose being the identity. Moving the frame of the root link moves the joints, masses, visuals and collisions it carries by the inverse of the pose, an origin equal to the pose becoming exactly the identity. Defining another link as the root leaves, for all joint positions, the bodies at the same places relatively to each other, each with its masses and shapes; it is refused, without change, for an unknown link or across a joint with several degrees of freedom.",
  "all poses in the stated ranges; a chain of two joints and a side branch, every joint type and axis of the stated ones, all joint positions",
  ["src/scenegraph/urdf.cpp", "almath/scenegraph/urdf.h"], [("Pose::inverse, operator*, RobotTree::define_as_root_link, transport_root_link_frame", "src/scenegraph/urdf.cpp")], over=("inputs", "histories"))
p("P36", "Squashing fixed joints conserves mass, centre of mass and inertia",
  "Squashing the mass of a joint moves the mass of its child into its parent: the total mass, the centre of mass and the inertia about any point stay the same, the parent keeps the axes of its inertial frame, the child has no mass left, and nothing changes when it had none. Squashing all the fixed joints gives each link the masses of the links rigidly fixed to it. Making massless joints fixed does so and makes fixed exactly the joints which move no mass, whose names are returned.",
  "all masses, centres of mass, joint origins and inertia terms in the stated ranges, trees of every shape with every joint fixed or not",
  ["src/scenegraph/urdf.cpp", "almath/scenegraph/urdf.h"], [("squashJointMass, squashFixedJointsMass, makeMasslessJointsFixed", "src/scenegraph/urdf.cpp")], over=("inputs", "histories"))
