#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)
K = 'sm_kinematics/'
KS = K + 'src/'
KI = K + 'include/sm/kinematics/'

prop('C01', 'Quaternion products compose and invert rotations',
 'For all unit quaternions, the rotation matrix of a product is the product of the rotation matrices, the inverse quaternion gives the transposed matrix, and rotating a vector by a quaternion equals multiplying it by its matrix. For all quaternions the two left/right multiplication matrices reproduce the two product functions, the product is associative with the library identity as neutral element, and the norm of a product is the product of the norms.',
 ['inputs'], 'all quaternions and vectors over the reals',
 'The tests sample a few random quaternions and compare against themselves with tolerances; a sign or index slip in one product formula that cancels in the sampled combination, or that only shows for products of two general quaternions, is not settled by samples.',
 [KS + 'quaternion_algebra.cpp', KI + 'quaternion_algebra.hpp'],
 [('qplus/qoplus/quatPlus/quatOPlus/quatInv/invertQuat/quatRotate/quatIdentity/qeps/qeta', KS + 'quaternion_algebra.cpp'), ('quat2r', KS + 'quaternion_algebra.cpp')],
 ['returned vectors and matrices'])

prop('C02', 'Quaternions and rotation matrices convert into each other faithfully',
 'The matrix of every unit quaternion is a proper rotation (orthonormal, determinant one). For every proper rotation matrix the extracted quaternion has unit length, a non-negative scalar part, and reproduces exactly that matrix; for a unit quaternion with positive scalar part the extraction returns that quaternion itself.',
 ['inputs'], 'all proper rotation matrices, in particular every ordering of the four quaternion components by magnitude',
 'The conversion has four numerically chosen branches; tests hit them only through a handful of random rotations, and the sign convention only shows when the scalar part would be negative.',
 [KS + 'quaternion_algebra.cpp'],
 [('r2quat', KS + 'quaternion_algebra.cpp'), ('quat2r', KS + 'quaternion_algebra.cpp')], ['returned quaternion/matrix'])

prop('C03', 'Axis-angle exponential and logarithm are exact and mutually inverse',
 'For every rotation vector the exponential yields the unit quaternion and the rotation matrix of the rotation by its length about its direction (in the library convention), including vectors of any small length, where quaternion values are accurate to the working precision. The quaternion logarithm of every unit quaternion other than minus identity maps back to that quaternion under the exponential, the logarithm of the exponential of every vector shorter than half a turn is that vector, and the quaternion update equals multiplication by the exponential of the increment.',
 ['inputs'], 'all rotation vectors (all magnitudes, including the small-angle region) and all unit quaternions except minus identity',
 'The formulas switch between series and closed form at a threshold near 1e-4 rad; tests use random angles of order one and loose tolerances, so the small-angle branch and the accuracy at its border are never examined.',
 [KS + 'quaternion_algebra.cpp', KS + 'rotations.cpp'],
 [('axisAngle2quat/quat2AxisAngle/qexp/qlog/updateQuat', KS + 'quaternion_algebra.cpp'), ('axisAngle2R/R2AxisAngle', KS + 'rotations.cpp')], ['returned values'])

prop('C04', 'Rotation parametrisations produce rotations and invert them',
 'For all parameters, every rotation parametrisation (yaw-pitch-roll, Z-Y-X, Z-X-Y, rotation vector, Euler-Rodrigues) and every elementary or composed axis rotation yields the proper rotation matrix of its documented axis order. Away from the singularity of the parametrisation, extracting parameters from a rotation matrix and converting them back reproduces that matrix.',
 ['inputs'], 'all parameter vectors and all proper rotation matrices away from the singularities of the parametrisation (for the rotation vector: away from half turns)',
 'Tests round-trip a few random parameters; a sign or transposition that cancels in the round trip, or an extraction that is wrong outside one quadrant, stays hidden.',
 [KS + 'rotations.cpp', KS + 'EulerAnglesYawPitchRoll.cpp', KS + 'EulerAnglesZYX.cpp', KS + 'EulerAnglesZXY.cpp', KS + 'RotationVector.cpp', KS + 'EulerRodriguez.cpp'],
 [('parametersToRotationMatrix/rotationMatrixToParameters', KS + 'EulerAngles*.cpp, RotationVector.cpp, EulerRodriguez.cpp'), ('Rx Ry Rz rph2R R2rph rph2C C2rph Cx Cy Cz crossMx', KS + 'rotations.cpp')], ['returned matrices and parameters'])

prop('C05', 'Rate matrices and rotation Jacobians are the true derivatives',
 'For all parameters and rates, the angular velocity reported by each rotation parametrisation is the one that satisfies the rotation kinematics of its own matrix, it equals the rate matrix times the parameter rates, and the reported Jacobian is the derivative of that angular velocity with respect to parameters and rates. The Jacobians offered for the quaternion exponential and logarithm and the inverse rate matrices agree with the functions they differentiate.',
 ['inputs'], 'all parameter and rate vectors where the representation is regular',
 'Tests compare against finite differences at random points with tolerances around 1e-6; a term that is small or vanishes there is not seen, and the quantifier is over a continuum.',
 [KS + 'EulerAnglesYawPitchRoll.cpp', KS + 'EulerAnglesZYX.cpp', KS + 'EulerAnglesZXY.cpp', KS + 'RotationVector.cpp', KS + 'EulerRodriguez.cpp', KS + 'quaternion_algebra.cpp'],
 [('parametersToSMatrix/angularVelocityAndJacobian/parametersToInverseSMatrix', KS + '*.cpp'), ('quatJacobian/quatS/quatInvS/expDiffMat/logDiffMat/quatExpJacobian/quatLogJacobian/quatLogJacobian2', KS + 'quaternion_algebra.cpp')], ['returned matrices'])

prop('C06', 'Rigid transformations form a group acting on points',
 'For all transformations, composing them multiplies their 4x4 matrices, the inverse composes to the identity on both sides, the stored quaternion stays a unit quaternion, and applying a transformation to a point, a homogeneous point or a direction equals multiplying by its matrix (rotation part only for directions). Construction from, assignment of and conversion to a 4x4 matrix preserve rotation and translation.',
 ['inputs', 'histories'], 'all transformations built from any unit (or non-zero, normalised on entry) quaternion and translation, and all points',
 'Tests check random transformations against tolerances; frame-order mistakes that only matter for combined rotation and translation, or only for one overload, are sampled at best.',
 [KS + 'Transformation.cpp', KI + 'Transformation.hpp', KS + 'transformations.cpp'],
 [('Transformation compose/inverse/apply/rotate/T/T3x4/C/set/oplus', KS + 'Transformation.cpp'), ('rt2Transform/inverseTransform/transform2C/transform2rho', KS + 'transformations.cpp')], ['T(), C(), t(), q(), operator*'])

prop('C07', 'Transformation-matrix perturbation operators satisfy their identities',
 'For all transformation matrices, perturbation vectors and homogeneous points: the 4x4 perturbation operator applied to a point equals minus (sign convention of the library) the 4x6 point operator applied to the perturbation, the 6x6 adjoint operator carries a perturbation through a transformation by conjugation, and the Jacobians returned with a (possibly inverse) transformed point are the first-order change of that point under the perturbation. Six-parameter Euler conversion to and from a matrix is inverse away from the pitch singularity.',
 ['inputs'], 'all perturbations, homogeneous points (any scale) and proper transformation matrices',
 'Tests use finite differences at random points with unit homogeneous scale and loose tolerances.',
 [KS + 'transformations.cpp', KS + 'Transformation.cpp'],
 [('boxPlus/boxMinus/boxTimes/transformationAndJacobian/inverseTransformationAndJacobian/toTEuler/fromTEuler', KS + 'transformations.cpp'), ('Transformation::S, oplus', KS + 'Transformation.cpp')], ['returned matrices, output arguments'])

prop('C08', 'Interpolation hits its end points and stays on the geodesic',
 'For every pair of unit quaternions and every fraction, spherical interpolation returns a unit quaternion, clamps to the first and last pose outside the interval, moves along the shorter arc by that fraction of the relative rotation, and linear interpolation of vectors is affine and clamped. Interpolating two timed transformations does the same for rotation and translation and does not depend on the order in which the two are given.',
 ['inputs'], 'all pairs of unit quaternions/transformations, all fractions and time stamps',
 'Existing tests do not exercise interpolation beyond a few cases; the shorter-arc flip and the clamping are selected by comparisons on continuous inputs.',
 [KS + 'quaternion_algebra.cpp', KS + 'Transformation.cpp'],
 [('qslerp/lerp', KS + 'quaternion_algebra.cpp'), ('interpolateTransformations/slerpTransformations', KS + 'Transformation.cpp')], ['returned quaternion/transformation'])

prop('C09', 'Homogeneous points behave as the Euclidean points they represent',
 'For all homogeneous points of any non-zero scale, converting to Euclidean form divides by the scale, addition and subtraction represent Euclidean addition and subtraction, column-wise conversion agrees with point-wise conversion, and the matrix forms of addition and subtraction reproduce them. Normalisation yields unit length without changing the represented point, and every Jacobian returned is the derivative of the conversion it accompanies.',
 ['inputs'], 'all homogeneous points with non-zero scale',
 'Tests sample random points; the scale-dependent terms are wrong only for unusual scales.',
 [KS + 'homogeneous_coordinates.cpp', KI + 'homogeneous_coordinates.hpp', KS + 'HomogeneousPoint.cpp', KI + 'HomogeneousPoint.hpp'],
 [('toHomogeneous/fromHomogeneous(+Jacobian, Columns)/toHomogeneousPlus/Minus/normalizeAndJacobian', KS + 'homogeneous_coordinates.cpp'), ('HomogeneousPoint', KS + 'HomogeneousPoint.cpp')], ['returned values'])

prop('C10', 'Uncertain transformations propagate covariance by first-order rules',
 'For all uncertain transformations, composition and inversion give the composed or inverted transformation together with the covariance obtained by carrying each input covariance through the adjoint of the transformation it passes, a certain operand contributes no uncertainty, and the covariance expressed for the update operator converts back and forth without loss. Covariances that are symmetric stay symmetric.',
 ['inputs'], 'all transformations and all symmetric 6x6 covariance matrices',
 'Tests compare a few random cases with numerically propagated covariances; a wrong adjoint or a missing term may be within tolerance or invisible for special operands.',
 [KS + 'UncertainTransformation.cpp', KI + 'UncertainTransformation.hpp', KS + 'Transformation.cpp'],
 [('UncertainTransformation operator*, inverse, UOplus/setUOplus', KS + 'UncertainTransformation.cpp'), ('Transformation * UncertainTransformation', KS + 'Transformation.cpp')], ['T(), U(), UOplus()'])

prop('C11', 'Uncertain points propagate covariance by first-order rules',
 'For all uncertain points (homogeneous and plain vectors) and all (uncertain) transformations acting on them, every operation returns the same point as its certain counterpart together with the covariance J*U*J^T summed over its uncertain operands, where J is the derivative of the operation with respect to that operand. Conversions between the 4x4, the Euclidean 3x3 and the minimal covariance use the derivatives of the corresponding conversion.',
 ['inputs'], 'all points of any non-zero scale, all symmetric covariances, all transformations',
 'Tests use a few random values, mostly unit scale; subtraction and mixed certain/uncertain overloads are barely covered.',
 [KS + 'UncertainHomogeneousPoint.cpp', KI + 'UncertainVector.hpp', KI + 'implementation/UncertainVector.hpp', KS + 'UncertainTransformation.cpp', KS + 'Transformation.cpp', KS + 'HomogeneousPoint.cpp'],
 [('UncertainHomogeneousPoint', KS + 'UncertainHomogeneousPoint.cpp'), ('UncertainVector', KI + 'implementation/UncertainVector.hpp')], ['U4(), U3(), U_av_form(), covariance()'])

prop('C12', 'Point-set alignment recovers the rigid motion',
 'Given two sets of at least three non-collinear corresponding points related exactly by a rigid motion, the alignment functions return that motion as a proper transformation. The rotation they return is proper for every input.',
 ['inputs'], 'all rigid motions and all non-degenerate point sets of any size',
 'Tests use a few random clouds; degenerate spreads (planar sets, near-reflections) select a different sign correction.',
 [KS + 'three_point_methods.cpp', KI + 'three_point_methods.hpp'],
 [('threePointSvd/qMethod', KS + 'three_point_methods.cpp')], ['returned matrices'])

prop('C13', 'Angle utilities reduce and convert angles exactly',
 'For every finite angle, reduction returns an angle within half a turn of zero that differs from the input by a whole number of turns, up to rounding. Degree/radian conversions are linear, mutually inverse up to rounding, and map half a turn to pi.',
 ['inputs'], 'all real angles',
 'A test can only try some angles; the boundary of the reduction and large multiples matter.',
 [KS + 'rotations.cpp', KI + 'rotations.hpp'],
 [('angleMod/deg2rad/rad2deg', KS + 'rotations.cpp')], ['returned angle'])

prop('C14', 'Nanosecond time conversions lose nothing and flag invalid times',
 'For every representable time stamp, converting nanoseconds to a system-clock time point and back is the identity; converting to seconds and back stays within the precision of a double (plus one nanosecond). The validity query is false exactly for the documented invalid time stamp.',
 ['inputs'], 'all 64-bit nanosecond values (for seconds: within the range where the scaled value is representable)',
 'Tests check one current time; sign, truncation and the reserved value need the whole 64-bit range.',
 ['sm_timing/src/NsecTimeUtilities.cpp', 'sm_timing/include/sm/timing/NsecTimeUtilities.hpp'],
 [('nsecToChrono/chronoToNsec/nsecToSec/secToNsec/isValid', 'sm_timing/src/NsecTimeUtilities.cpp')], ['returned values'])

prop('C15', 'Corrected time stamps are a causal lower envelope',
 'For every sequence of samples with increasing remote time, the retained points form a convex lower envelope of all samples that contains the first and the last sample; the mapping used is the envelope segment at the middle of the interval, so every mapped sample time is not later than its local arrival time. Samples whose remote time does not increase are rejected and leave the state unchanged, and slope, offset and mapped time describe the same line.',
 ['inputs', 'histories'], 'all sample sequences of any length with increasing remote times (seconds or signed integer ticks)',
 'Tests feed one or two synthetic sequences; which points are dropped depends on the whole history.',
 ['sm_timing/include/sm/timing/TimestampCorrector.hpp', 'sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp'],
 [('correctTimestamp/isAboveLine/getLocalTime/getSlope/getOffset', 'sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp')],
 ['returned local time, getSlope, getOffset, convexHullSize'], [('_convexHull', 'lower convex hull of the samples', 'TimestampCorrector.hpp'), ('_midpointSegmentIndex', 'hull segment containing the middle of the interval', 'TimestampCorrector.hpp')])

prop('C16', 'Timers record exactly the intervals that were run',
 'A timer records one sample per start/stop pair (also when it is destroyed while running), starting a running or stopping a stopped timer is rejected, and the statistics of a tag are those of exactly the samples recorded under that tag since its last reset. Each tag keeps one handle for the life of the program, distinct tags have distinct handles, and a handle maps back to its tag.',
 ['histories', 'inputs'], 'all sequences of timer operations and all tags',
 'Tests do not cover timers at all.',
 ['sm_timing/src/Timer.cpp', 'sm_timing/include/sm/timing/Timer.hpp'],
 [('Timer start/stop/destructor', 'sm_timing/src/Timer.cpp'), ('Timing getHandle/getTag/addTime/statistics/reset', 'sm_timing/src/Timer.cpp')], ['getNumSamples and the other statistics, isTiming'])

prop('C17', 'A matrix archive is a map from names to values',
 'After any sequence of set, clear and query operations, the archive holds exactly the most recent value stored under each name, whichever kind of value (matrix, vector, scalar, string) it is, and nothing for names that were cleared or never set; a query for a missing name or a wrong kind is rejected. Invalid names are rejected without changing the archive.',
 ['histories', 'inputs'], 'all operation sequences over all names and values',
 'One test stores a few values once; overwriting with another kind, clearing one name and invalid names need histories.',
 ['sm_matrix_archive/src/MatrixArchive.cpp', 'sm_matrix_archive/include/sm/MatrixArchive.hpp'],
 [('setMatrix/setScalar/setVector/setString/createMatrix/clear/get*', 'sm_matrix_archive/src/MatrixArchive.cpp'), ('validateName/isNameValid', 'sm_matrix_archive/src/MatrixArchive.cpp')], ['getters, size, iteration'])

prop('C18', 'Saving and loading a matrix archive is lossless',
 'For every archive, saving it and loading the file into an empty archive reproduces every name, matrix shape, matrix element and string bit for bit, in particular empty matrices and maximum-length names. Loading a file restricted to a set of names loads exactly those, appending to a file adds to what it holds, a save that could not write everything is reported, and a file that is cut off or corrupted within a block is rejected rather than silently misread.',
 ['inputs', 'crash_points'], 'all archives; all truncation points of a saved file',
 'One test saves one small archive; truncation points and unusual shapes or names are not tried.',
 ['sm_matrix_archive/src/MatrixArchive.cpp'],
 [('save/load/writeMatrixBlock/readMatrixBlock/writeStringBlock/readStringBlock/append', 'sm_matrix_archive/src/MatrixArchive.cpp')], ['loaded archive, exceptions'])

prop('C19', 'Property trees return what was stored, or the default, or an error',
 'A typed value (bool, int, finite double, string) written under a key is returned unchanged by a typed read of the same key, and a write changes no other key; a read of a missing key without default is rejected, and with a default returns the default. A default read through a modifiable tree records the default under the key, whereas a read through a constant tree never changes the tree. Key existence reflects exactly the keys written (with the levels above them), and the children listed under a key are exactly the entries stored under it.',
 ['inputs', 'histories'], 'all keys and values of the supported types (bool, int, double, string), all sequences of reads and writes',
 'Tests use a few literal keys and values; precision of doubles, unusual strings and the const/non-const difference need all inputs.',
 ['sm_property_tree/src/BoostPropertyTreeImplementation.cpp', 'sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp', 'sm_property_tree/src/PropertyTree.cpp'],
 [('get/set/doesKeyExist', 'sm_property_tree/src/BoostPropertyTreeImplementation.cpp'), ('ConstPropertyTree/PropertyTree forwarding', 'sm_property_tree/src/PropertyTree.cpp')], ['getters, doesKeyExist, getChildren'])

prop('C20', 'A namespaced property-tree view addresses exactly its subtree',
 'For every tree, namespace and key, accessing a key through a view of a namespace is the same access as the fully qualified key through the root: absolute keys are taken from the root, relative keys below the view, and views of views concatenate. Redundant or missing separators in a namespace do not change which entry is addressed, and all views share one underlying store.',
 ['inputs'], 'all namespaces and keys, any nesting depth, any underlying store',
 'Tests use two or three literal namespaces.',
 ['sm_property_tree/src/PropertyTree.cpp', 'sm_property_tree/include/sm/PropertyTree.hpp'],
 [('buildQualifiedKeyName and constructors', 'sm_property_tree/src/PropertyTree.cpp'), ('getters/setters forwarding', 'sm_property_tree/src/PropertyTree.cpp')], ['the key received by the underlying store'])

prop('C21', 'Merging and layered loading of property trees override predictably',
 'Merging a tree (without repeated sibling names) into another makes every value of the source readable in the destination and leaves entries absent from the source untouched; values that are empty or blank are left out when that is asked for. An update-only merge changes existing entries, creates none, and is rejected exactly when the source names a missing one. Text and file forms of a tree load back to the same keys and values (those the format can express), and of files with parents the last one loaded that holds a key decides its value.',
 ['inputs', 'configurations'], 'all pairs of trees; all trees the file formats can express; all acyclic or cyclic lists of parents',
 'Tests merge one small example.',
 ['sm_property_tree/src/BoostPropertyTreeImplementation.cpp', 'sm_property_tree/src/BoostPropertyTree.cpp', 'sm_property_tree/src/BoostPropertyTreeLoader.cpp'],
 [('update/merge', 'sm_property_tree/src/BoostPropertyTreeImplementation.cpp'), ('load/save/loadString', 'sm_property_tree/src/BoostPropertyTreeImplementation.cpp')], ['getters after the merge'])

prop('C22', 'Value stores expose their backing tree faithfully',
 'A value store backed by a property tree returns, for each type, the value the tree holds, the given default when the key is missing, and an error when there is neither; an updatable handle writes through and later reads see the new value. Added values are readable under their key, children are views of the same store, and a store viewed as a property tree answers like the store (with a leading separator ignored).',
 ['inputs', 'histories'], 'all keys, types and values, all sequences of reads, additions and updates',
 'Tests use a few literals.',
 ['sm_value_store/src/PropertyTreeValueStore.cpp', 'sm_value_store/include/sm/value_store/ValueStore.hpp', 'sm_value_store/include/sm/value_store/PropertyTreeValueStore.hpp'],
 [('PropertyTreeValueStore get/add/hasKey/getChild', 'sm_value_store/src/PropertyTreeValueStore.cpp'), ('ValueHandle', 'sm_value_store/include/sm/value_store/ValueStore.hpp')], ['ValueHandle::get, hasKey'])

prop('C23', 'Prefixed, layered and alternative lookups resolve to the right entry',
 'A prefixed store forwards each key with exactly its prefix added (or removed, rejecting keys without it) and the default unchanged. A layered store answers from the first layer that has the key and falls back to the default or error of the last layer only when none has it; a key exists if it exists in any layer. A lookup with alternative paths uses the first existing alternative, reports deprecated ones exactly when used, and falls back to the first path.',
 ['inputs', 'configurations'], 'all keys, prefixes, defaults, layer contents and path lists',
 'Tests use two layers and fixed keys.',
 ['sm_value_store/src/PrefixedValueStore.cpp', 'sm_value_store/src/ValueStore.cpp', 'sm_value_store/include/sm/value_store/LayeredValueStore.hpp', 'sm_value_store/include/sm/value_store/PrefixedValueStore.hpp'],
 [('applyPrefix', 'sm_value_store/src/PrefixedValueStore.cpp'), ('LayeredValueStore::getFromLayers/hasKey', 'sm_value_store/src/ValueStore.cpp'), ('ValueStoreRef::findPathAndAlert', 'sm_value_store/src/ValueStore.cpp')], ['returned handles, alert handler calls'])

prop('C24', 'A verbose value store is transparent',
 'For every typed read, addition, key query and child, a verbose store returns exactly what the wrapped store returns for the same key and default, leaves it in the same state, and logs exactly one line per answered request naming the requested key and the returned value, marked as default when the key is absent and the default is returned.',
 ['inputs'], 'all keys, values, defaults and wrapped stores',
 'Tests check two literal log lines.',
 ['sm_value_store/src/VerboseValueStore.cpp', 'sm_value_store/include/sm/value_store/VerboseValueStore.hpp'],
 [('VerboseValueStoreT::logValue and forwarding', 'sm_value_store/src/VerboseValueStore.cpp')], ['returned handles, log callback'])

prop('C25', 'Log statements are enabled exactly by level and stream',
 'After any sequence of level changes and stream enable/disable calls, a log location is enabled if and only if its level is at least the global level and its stream is unnamed or currently enabled. Level names are recognised regardless of letter case and unknown names select the information level; stream names without the default prefix refer to the same stream as with it.',
 ['histories', 'inputs'], 'all sequences of configuration calls, all level and stream names',
 'Tests check a few configurations; stale caching needs histories.',
 ['sm_logging/src/LoggingGlobals.cpp', 'sm_logging/src/Levels.cpp', 'sm_logging/include/sm/logging/LoggingGlobals.hpp'],
 [('checkLogLocationEnabledNoLock/notifyLoggerLevelsChanged/initializeLogLocation/setLevel/enableNamedStream/disableNamedStream', 'sm_logging/src/LoggingGlobals.cpp'), ('levels::fromString', 'sm_logging/src/Levels.cpp')], ['LogLocation::_loggerEnabled, isNamedStreamEnabled'])

prop('C26', 'Log formatting substitutes every placeholder and keeps the rest',
 'For every format string and event, the formatted line is the format with each known placeholder replaced by the corresponding attribute of the event and each user-defined placeholder by its configured text, unknown placeholders and all other text kept verbatim and in order. The severity placeholder has a distinct text for every level.',
 ['inputs'], 'all format strings, levels and messages',
 'Tests use the default format only.',
 ['sm_logging/src/Formatter.cpp', 'sm_logging/include/sm/logging/Tokens.hpp', 'sm_logging/include/sm/logging/Formatter.hpp'],
 [('Formatter::init/print/createTokenFromType', 'sm_logging/src/Formatter.cpp'), ('Token::getString', 'sm_logging/include/sm/logging/Tokens.hpp')], ['printed text'])

prop('C27', 'Identifiers are totally ordered values with a distinguished unset state',
 'Comparison operators of identifiers agree with the order of their numbers, pre- and post-increment advance by exactly one and return the new respectively old identifier, and an identifier is set unless it holds the reserved value, which is also what default construction and clearing produce. Distinct identifiers have distinct hash values wherever the hash is the number.',
 ['inputs'], 'all identifier values',
 'Tests do not cover the identifier type; overflow and sentinel need all values.',
 ['sm_common/include/sm/Id.hpp'], [('Id operators, isSet, clear, increment, hash', 'sm_common/include/sm/Id.hpp')], ['operators'])

prop('C28', 'Hash identifiers compare, print and parse consistently',
 'For every 128-bit identifier the hexadecimal text has two lower-case digits per byte and parses back to the same identifier; identifiers are equal exactly when all bytes are equal, less and greater are converse strict total orders consistent with equality, and equal identifiers have equal hashes. Text that is not exactly 32 hexadecimal digits (of either case) is rejected by returning false, leaving the identifier unchanged, and validity is false exactly for the cleared identifier.',
 ['inputs'], 'all byte sequences and all strings',
 'Tests use random identifiers only.',
 ['sm_common/include/sm/hash_id.hpp'], [('hexString/fromHexString/operator</operator==/isValid/std::hash', 'sm_common/include/sm/hash_id.hpp')], ['operators and strings'])

prop('C29', 'String utilities transform text exactly as documented',
 'For all strings: replacement replaces every occurrence of the character but the skipped ones and terminates, padding yields the requested width without dropping text, trailing-separator completion is idempotent, and environment substitution replaces exactly the defined variables. Conversions of integers to text and back preserve the value; of reals up to the precision asked for.',
 ['inputs'], 'all strings, patterns and replacement texts',
 'There are no tests for these utilities.',
 ['sm_common/include/sm/string_routines.hpp'], [('replace/replace_reverse/leading_pad/padded/ensureTrailingBackslash/substituteEnvVars/ts/s_tuple/arrToString/toStream/fixedFloat/scientific', 'sm_common/include/sm/string_routines.hpp')], ['returned strings'])

prop('C30', 'Small numeric helpers meet their documented definition',
 'Relative comparison holds exactly when the difference is within the tolerance times the larger magnitude, and at most one of approximately equal, definitely less and definitely greater holds; the sign function returns -1, 0 or 1; rounding returns the nearest integer with halves away from zero, in the full range of the result type. The quadratic solver returns the real roots of every quadratic that has some and rejects the others.',
 ['inputs'], 'all finite floating-point inputs (for the quadratic: non-zero leading coefficient)',
 'Tests sample a few values; signs, zero coefficients and magnitudes at the border of the integer range are special.',
 ['sm_common/include/sm/numerical_comparisons.hpp', 'sm_common/include/sm/maths.hpp', 'sm_common/include/sm/round.hpp'],
 [('approximatelyEqual/definitelyGreaterThan/definitelyLessThan', 'sm_common/include/sm/numerical_comparisons.hpp'), ('solveQuadratic/sgn', 'sm_common/include/sm/maths.hpp'), ('round/rint/lrint', 'sm_common/include/sm/round.hpp')], ['returned values'])

prop('C31', 'Assertion macros throw exactly when their condition fails',
 'Each runtime assertion macro leaves execution unaffected when its condition holds and throws the requested exception type, carrying the file, line, function and message, when it does not, for all operand values that are not NaN; the operands of the single-comparison macros are evaluated once in the passing case. The debug variants behave the same in a build without NDEBUG and do nothing in one with it.',
 ['inputs'], 'all operand values for each comparison macro',
 'Tests check one passing and one failing value per macro; a comparison that is off at equality or for negative values is missed.',
 ['sm_common/include/sm/assert_macros.hpp', 'sm_common/include/sm/source_file_pos.hpp'],
 [('SM_ASSERT_* / SM_THROW', 'sm_common/include/sm/assert_macros.hpp')], ['exceptions'])

prop('C32', 'Matrices survive serialisation and square-root factorisation',
 'Every dense matrix or vector, of fixed or dynamic size including empty ones, is reproduced exactly by writing it to an archive and reading it back, and reading into a fixed size of a different shape is rejected. The matrix square root S of a symmetric positive definite matrix satisfies S*S^T equal to that matrix, and the numerical Jacobian of an affine map is its matrix.',
 ['inputs'], 'all matrices and shapes',
 'Tests cover a few shapes and random values.',
 ['sm_eigen/include/sm/eigen/serialization.hpp', 'sm_eigen/include/sm/eigen/matrix_sqrt.hpp', 'sm_eigen/include/sm/eigen/NumericalDiff.hpp'],
 [('save/load', 'sm_eigen/include/sm/eigen/serialization.hpp'), ('computeMatrixSqrt', 'sm_eigen/include/sm/eigen/matrix_sqrt.hpp'), ('NumericalDiff', 'sm_eigen/include/sm/eigen/NumericalDiff.hpp')], ['loaded matrix, factor'])

prop('C33', 'Every scheduled job runs exactly once and waiting is sound',
 'Whatever the interleaving, each unit of work scheduled on a started queue is executed exactly once unless the queue is stopped first, in the order of scheduling when there is one worker. Waiting for the empty queue returns only when every previously scheduled unit has finished, and stopping, joining and destroying the queue terminate.',
 ['schedules'], 'all interleavings of scheduling, worker and control threads',
 'The test runs a handful of futures on one schedule.',
 ['sm_boost/src/JobQueue.cpp', 'sm_boost/include/sm/boost/JobQueue.hpp'],
 [('exec_loop/scheduleWork/waitForEmptyQueue/stop/join', 'sm_boost/src/JobQueue.cpp')], ['executed work, return of waitForEmptyQueue'])

prop('C34', 'Binary-equality comparison of objects is exact and null-safe',
 'The member comparison used for serialisable objects is true exactly when the compared members are equal by their own equality, compares pointed-to objects rather than addresses, treats two null pointers as equal and a null and a non-null pointer as different. Transformations and points are binary-equal exactly when all of their components are equal.',
 ['inputs'], 'all pairs of values, pointers and null pointers',
 'Tests try a few pairs.',
 ['sm_common/include/sm/serialization_macros.hpp', 'sm_common/include/sm/is_binary_equal.hpp', KS + 'Transformation.cpp', KS + 'UncertainTransformation.cpp', KS + 'HomogeneousPoint.cpp', KS + 'UncertainHomogeneousPoint.cpp'],
 [('SM_CHECKSAME/SM_CHECKMEMBERSSAME', 'sm_common/include/sm/serialization_macros.hpp'), ('isBinaryEqual', KS + '*.cpp')], ['isBinaryEqual'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
