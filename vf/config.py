"""per property: contract files, sources of /repo, verifier mode"""
import glob
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')

INC = ['-I' + VERIF + '/contracts', '-I/usr/include/eigen3'] + ['-I%s' % d for d in sorted(glob.glob(REPO + '/sm_*/include'))]
IR_FLAGS = ['-std=c++14', '-O1', '-finline-hint-functions', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
            '-ffp-contract=off', '-fno-math-errno', '-DEIGEN_DONT_VECTORIZE', '-w', '-fno-discard-value-names']
# abstract-library mode: library members stay calls
IR_FLAGS_S = ['-std=c++14', '-O1', '-fno-inline', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
              '-ffp-contract=off', '-fno-math-errno', '-DEIGEN_DONT_VECTORIZE', '-w', '-include', 'boost/bind.hpp', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS']
NATIVE_FLAGS = ['-std=c++14', '-O1', '-g0', '-w', '-DVF_NATIVE', '-include', 'boost/bind.hpp', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS']


def kin(*names):
    return ['sm_kinematics/src/%s.cpp' % n for n in names]


KIN_ALL = kin('quaternion_algebra', 'rotations', 'transformations', 'homogeneous_coordinates', 'EulerAnglesYawPitchRoll',
              'EulerAnglesZYX', 'EulerAnglesZXY', 'EulerRodriguez', 'RotationVector', 'RotationalKinematics', 'Transformation',
              'HomogeneousPoint', 'UncertainHomogeneousPoint', 'UncertainTransformation')
ROT = kin('rotations', 'EulerAnglesYawPitchRoll', 'EulerAnglesZYX', 'EulerAnglesZXY', 'EulerRodriguez', 'RotationVector', 'RotationalKinematics', 'quaternion_algebra')
QUAT = kin('quaternion_algebra', 'rotations')

TREE_TRUST = ['contract of boost::property_tree::ptree: walk_path and put_child are lookup and insertion in a partial map from paths to texts (names of levels separated by slashes)', 'contract of boost::property_tree::stream_translator for double, int and bool: the text written for a finite value is read back as that value']
PTREE = ['sm_property_tree/src/%s.cpp' % n for n in ('PropertyTree', 'PropertyTreeImplementation', 'BoostPropertyTree', 'BoostPropertyTreeImplementation', 'BoostPropertyTreeLoader', 'BoostPropertyTreeSupport')]
VSTORE = ['sm_value_store/src/%s.cpp' % n for n in ('PrefixedValueStore', 'PropertyTreeValueStore', 'ValueStore', 'VerboseValueStore')] + PTREE

CHECKS = {
    'C01': dict(contracts=['C01'], bind=['kin_bind'], repo=QUAT, mode='real'),
    'C02': dict(contracts=['C02'], bind=['kin_bind'], repo=QUAT, mode='real'),
    'C03': dict(contracts=['C03'], bind=['kin_bind'], repo=QUAT, mode='real'),
    'C04': dict(contracts=['C04'], bind=['kin_bind'], repo=ROT, mode='real'),
    'C05': dict(contracts=['C05'], bind=['kin_bind'], repo=ROT, mode='real'),
    'C06': dict(contracts=['C06'], bind=['kin_bind'], repo=KIN_ALL, native_repo=KIN_ALL + ['sm_random/src/random.cpp'], mode='real'),
    'C07': dict(contracts=['C07'], bind=['kin_bind'], repo=KIN_ALL, native_repo=KIN_ALL + ['sm_random/src/random.cpp'], mode='real'),
    'C08': dict(contracts=['C08'], bind=['kin_bind'], repo=KIN_ALL, native_repo=KIN_ALL + ['sm_random/src/random.cpp'], size_bounded={'linear_interpolation': 'n <= 3'}, mode='real'),
    'C09': dict(contracts=['C09'], bind=['kin_bind'], repo=KIN_ALL, native_repo=KIN_ALL + ['sm_random/src/random.cpp'], size_bounded={'columns_of_any_small_size': 'rows <= 4, columns <= 4'}, mode='real'),
    'C10': dict(contracts=['C10'], bind=['kin_bind'], repo=KIN_ALL, native_repo=KIN_ALL + ['sm_random/src/random.cpp'], mode='real'),
    'C13': dict(contracts=['C13'], repo=QUAT, mode='real'),
    'C14': dict(contracts=['C14', 'C14r'], repo=['sm_timing/src/NsecTimeUtilities.cpp'], mode='bits', entry_mode={'seconds_round_trip': 'rounding', 'seconds_are_nanoseconds_over_a_billion': 'rounding'}),
    'C28': dict(z3timeout=20000, contracts=['C28'], repo=['sm_common/src/hash_id.cpp'], mode='bits'),
    'C29': dict(contracts=['C29'], repo=[], mode='bits', ir=IR_FLAGS_S, smode=True, maxpaths=3000,
        size_bounded={'replace': 'texts of up to 5 characters', 'replace_reverse': 'texts of up to 5 characters', 'replace_by_itself': 'texts of up to 5 characters', 'environment_short': 'texts of up to 5 characters', 'lists': 'up to 3 elements'}),
    'C30': dict(z3timeout=40000, contracts=['C30'], repo=[], mode='bits', entry_mode={'quadratic': 'real'}),
    'C27': dict(contracts=['C27'], repo=[], mode='bits'),
    'C31': dict(contracts=['C31', 'C31n'], repo=[], mode='bits', native_secs=1),
    'C34': dict(contracts=['C34'], repo=KIN_ALL, native_repo=KIN_ALL + ['sm_random/src/random.cpp'], mode='bits'),
    'C12': dict( level='other', explanation='bounded deductive verification: every entry is a contract proof for all points, vectors and weights, for a fixed number of points (3, 4; vectors 2, 3); larger sets by native evaluation of the contract only. Eigen decompositions enter by assumed contracts.', contracts=['C12'], repo=kin('three_point_methods', 'rotations'), mode='real', size_bounded={'svd_exact_3': '3 points', 'svd_exact_4': '4 points', 'svd_proper_3': '3 points', 'svd_proper_4': '4 points', 'q_proper_2': '2 vectors', 'q_exact_2': '2 vectors', 'q_exact_3': '3 vectors', 'q_exact_unweighted': '2 vectors'}),
    'C15': dict(contracts=['C15'], repo=[], mode='real', size_bounded={'more_samples': 'envelopes of up to 4 points before the sample', 'mapping': 'envelopes of up to 4 points', 'switching': 'envelopes of up to 3 points', 'time_went_backwards': 'envelopes of up to 4 points'}),
    'C16': dict(contracts=['C16'], repo=[], defs=['-I' + REPO], mode='real', libs=['-lboost_thread', '-lboost_system', '-lpthread'], size_bounded={'handles': 'tags from a list, the last character arbitrary', 'statistics': 'up to 3 samples'}),
    'C17': dict(contracts=['C17'], repo=['sm_matrix_archive/src/MatrixArchive.cpp'], mode='bits', ir=IR_FLAGS_S, smode=True, maxpaths=6000,
size_bounded={'names': 'names of up to 5 characters; of longer ones all but one character fixed', 'create_matrix': 'created matrices of up to 2x2 elements', 'sizes': 'histories of up to 3 entries'}),
    'C18': dict(contracts=['C18'], repo=['sm_matrix_archive/src/MatrixArchive.cpp'], mode='bits', ir=IR_FLAGS_S, smode=True, maxpaths=6000,
                libs=['-lboost_filesystem', '-lboost_system'], size_bounded={'two_values': 'archives of two values with names of 1 or 32 characters', 'restricted': 'archives of two values with names of 3 characters', 'appended': 'two values with names of 3 characters', 'truncated': 'one value with a name of 3 characters', 'corrupted': 'one value with a name of 3 characters', 'saved_or_rejected': 'one value with a name of 3 characters'}),
    'C32': dict(contracts=['C32', 'C32r'], repo=[], mode='bits', entry_mode={'square_root_2': 'real', 'square_root_3': 'real', 'square_root_dynamic': 'real', 'jacobian_of_an_affine_map': 'real', 'jacobian_with_given_step': 'real'}, ir=IR_FLAGS_S, smode=True, libs=['-lboost_serialization'], size_bounded={'square_root_2': '2x2 matrices', 'square_root_3': '3x3 matrices', 'square_root_dynamic': 'matrices of up to 4 rows', 'jacobian_of_an_affine_map': 'up to 3 arguments and values', 'jacobian_with_given_step': '2 arguments and values'}),
    'C33': dict(contracts=['C33'], repo=['sm_boost/src/JobQueue.cpp'], mode='bits', ir=IR_FLAGS_S, smode=True, libs=['-lboost_thread', '-lboost_system', '-lpthread'], maxpaths=3000,
                size_bounded={'starting': 'up to 3 threads'}),
    'C19': dict(contracts=['C19'], repo=['sm_property_tree/src/%s.cpp' % n for n in ('BoostPropertyTreeImplementation', 'PropertyTree', 'PropertyTreeImplementation')], native_repo=PTREE, mode='bits', defs=['-DBOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES'], ir=IR_FLAGS_S, smode=True, maxpaths=3000, libs=['-lboost_filesystem', '-lboost_system'],
                trusted=TREE_TRUST),
    'C21': dict(contracts=['C21'], repo=['sm_property_tree/src/%s.cpp' % n for n in ('BoostPropertyTreeImplementation', 'PropertyTree', 'PropertyTreeImplementation')], native_repo=PTREE, mode='bits', defs=['-DBOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES'], ir=IR_FLAGS_S, smode=True, maxpaths=6000, libs=['-lboost_filesystem', '-lboost_system'],
                trusted=TREE_TRUST, level='other', explanation='bounded deductive verification: every entry is a contract proof for all destinations, names and values, for a source of a fixed shape (the root, one key, two keys, a nested key); larger sources, and the text and file forms, by native evaluation of the contract only.',
                size_bounded={m + w: b for m in ('merge_of_', 'update_of_') for w, b in (('a_root', 'a source without keys'), ('one_key', 'a source of one key'), ('two_keys', 'a source of two keys'), ('two_keys_elsewhere', 'a source of two keys'), ('a_nested_key', 'a source of a key below another one'))}),
    'C20': dict(contracts=['C20'], repo=['sm_property_tree/src/PropertyTree.cpp', 'sm_property_tree/src/PropertyTreeImplementation.cpp'], mode='bits', ir=IR_FLAGS_S, smode=True),
    'C23': dict(contracts=['C23'], repo=['sm_value_store/src/PrefixedValueStore.cpp', 'sm_value_store/src/ValueStore.cpp'], native_repo=VSTORE, mode='bits', ir=IR_FLAGS_S, smode=True,
                size_bounded={'three_layers': 'up to 3 layers', 'two_layers': 'up to 3 layers', 'one_layer': 'up to 3 layers', 'children_of_layers': '2 layers', 'layers_added': '2 layers',
                              'one_path': 'up to 3 alternatives', 'two_paths': 'up to 3 alternatives', 'three_paths': 'up to 3 alternatives', 'without_a_handler': '2 alternatives'}),
    'C22': dict(contracts=['C22'], repo=['sm_value_store/src/PropertyTreeValueStore.cpp', 'sm_value_store/src/ValueStore.cpp', 'sm_property_tree/src/PropertyTree.cpp', 'sm_property_tree/src/PropertyTreeImplementation.cpp'], native_repo=VSTORE, mode='bits', ir=IR_FLAGS_S, smode=True,
                size_bounded={'list_of_children': 'up to 2 children'}),
    'C25': dict(contracts=['C25'], repo=['sm_logging/src/%s.cpp' % n for n in ('LoggingGlobals', 'Levels', 'Logger')], native_repo=['sm_logging/src/%s.cpp' % n for n in ('LoggingGlobals', 'Levels', 'Logger', 'Formatter', 'StdOutLogger', 'Tokens', 'LoggingEvent')], mode='bits', ir=IR_FLAGS_S, smode=True, libs=['-lboost_thread', '-lboost_system', '-lpthread'], maxpaths=3000,
                size_bounded={'a_level_change': 'up to 2 locations', 'a_stream_enabled': 'up to 2 locations', 'a_stream_disabled': 'up to 2 locations'}),
    'C26': dict(contracts=['C26'], repo=['sm_logging/src/%s.cpp' % n for n in ('Formatter', 'LoggingEvent', 'Tokens')], mode='bits', ir=IR_FLAGS_S, smode=True, libs=['-lboost_thread', '-lboost_system', '-lpthread'], maxpaths=3000,
                size_bounded={'the_line': 'up to 3 tokens', 'the_line_in_colour': '1 token', 'short_formats': 'formats of up to 6 characters', 'placeholders_between_texts': 'two placeholders and texts of 1 character'}),
    'C24': dict(contracts=['C24'], repo=['sm_value_store/src/VerboseValueStore.cpp', 'sm_value_store/src/ValueStore.cpp'], native_repo=VSTORE, mode='bits', ir=IR_FLAGS_S, smode=True),
    'C11': dict(contracts=['C11'], bind=['kin_bind'], repo=KIN_ALL, native_repo=KIN_ALL + ['sm_random/src/random.cpp'], mode='real'),
}

TRUSTED = ['clang 18 front end (C++ to LLVM IR at -O1 of the unmodified sources)', 'libLLVM 18 (bitcode reader)',
           'vf engine (symbolic execution, normal forms) in /verif/vf', 'z3 5.3.2', 'numpy/mpmath (refutation only)']
ASSUMPTIONS = {
    'real': ['double arithmetic is treated as exact real arithmetic in the proofs (rounding is only sampled by the native evaluations); overflow, NaN and infinities outside',
             'libm functions satisfy their mathematical definition', 'operator new does not fail',
             'exception and log texts are not modelled'],
    'bits': ['operator new does not fail', 'round-to-nearest floating-point environment', 'exception texts are not modelled'],
    'none': ['bounded: random evaluation of the contract on the real code, not a proof'],
}
