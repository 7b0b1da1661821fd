"""extraction: /repo's current sources -> LLVM IR (verifier) and -> native objects (replay), on every run"""
import concurrent.futures as cf
import os
import subprocess
from . import config

JOBS = int(os.environ.get('VF_JOBS', '8'))


class BuildError(Exception):
    """contract: the sources under /repo compile, the contracts do not compile or link against them"""
    contract = False


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if r.returncode:
        ex = BuildError(' '.join(cmd[:1] + cmd[-3:]) + '\n' + r.stdout.decode('utf8', 'replace')[-6000:])
        ex.cmd = cmd
        raise ex
    return r.stdout


def added_sources(files):
    """source files that the packages of `files` have gained since the contracts were written (a helper moved to a new file)"""
    known = set(open(os.path.dirname(__file__) + '/known_sources.txt').read().split())
    out = []
    for d in sorted({f.split('/src/')[0] for f in files if '/src/' in f}):
        for root, _, names in os.walk('%s/%s/src' % (config.REPO, d)):
            out += [os.path.relpath(root + '/' + n, config.REPO) for n in sorted(names) if n.endswith('.cpp')]
    return [f for f in out if f not in known]


def build(prop, cfg, work):
    """returns (bitcode file or None, native binary)"""
    os.makedirs(work, exist_ok=True)
    ir = cfg.get('ir', config.IR_FLAGS)
    jobs = []
    bcs, objs = [], []
    srcs = [(config.VERIF + '/contracts/%s.cpp' % c, 'c_' + c) for c in cfg['contracts']]
    added = added_sources(cfg['repo'] + cfg.get('native_repo', []))
    repo = [(config.REPO + '/' + f, 'r_' + f.replace('/', '_').replace('.cpp', '')) for f in cfg['repo'] + added]
    bind = [(config.VERIF + '/contracts/%s.cpp' % c, 'b_' + c) for c in cfg.get('bind', [])]
    bound = [(config.VERIF + '/contracts/%s.cpp' % c, 'c_' + c) for c in cfg.get('bounded', [])]
    for s, o in (srcs + repo + bind if cfg.get('mode') != 'none' else []):
        out = '%s/%s.bc' % (work, o)
        bcs.append(out)
        jobs.append(['clang++-18'] + ir + cfg.get('defs', []) + config.INC + ['-emit-llvm', '-c', s, '-o', out])
    nat = list(config.NATIVE_FLAGS) + cfg.get('native_flags', [])
    nrepo = [(config.REPO + '/' + f, 'r_' + f.replace('/', '_').replace('.cpp', '')) for f in cfg.get('native_repo', cfg['repo']) + added]
    for s, o in srcs + bound + nrepo + [(config.VERIF + '/contracts/native_main.cpp', 'native_main')]:
        out = '%s/%s.o' % (work, o)
        objs.append(out)
        jobs.append(['g++'] + nat + cfg.get('defs', []) + config.INC + ['-c', s, '-o', out])
    # longest first (heuristic: repo files with heavy templates)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(attempt, jobs) if e]
    if errs:
        own = [e for e in errs if any(a.startswith(config.REPO + '/') and a.endswith('.cpp') for a in e.cmd)]
        ex = (own or errs)[0]
        ex.contract = not own
        raise ex
    try:
        return link(prop, cfg, work, bcs, objs, nat)
    except BuildError as ex:
        ex.contract = True
        raise


def attempt(cmd):
    try:
        sh(cmd)
    except BuildError as ex:
        return ex


def link(prop, cfg, work, bcs, objs, nat):
    binf = None
    if cfg.get('mode') != 'none':
        binf = '%s/%s.bc' % (work, prop)
        sh(['llvm-link-18', '-o', binf] + bcs)
    exe = '%s/%s.native' % (work, prop)
    sh(['g++'] + [f for f in nat if f.startswith('-fsanitize')] + objs + ['-o', exe] + cfg.get('libs', ['-lboost_system', '-lboost_filesystem', '-lboost_serialization', '-lboost_thread', '-lpthread']))
    return binf, exe
