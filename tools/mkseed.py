"""mkseed.py SPEC.py : builds /verif/seeded/<id> from a small specification and validates it in a scratch copy of /repo.
SPEC.py defines: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text), SRC (list of /repo sources), FLAGS"""
import json, os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
W = '/tmp/w/seedrepo'
if not os.path.isdir(W):
    shutil.copytree('/repo', W, symlinks=True)
subprocess.run('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W, W), shell=True, check=True)
D = '/verif/seeded/' + spec['ID']
os.makedirs(D, exist_ok=True)
for f, old, new in spec['EDITS']:
    s = open(W + '/' + f).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(W + '/' + f, 'w').write(s.replace(old, new))
open(D + '/patch.diff', 'w').write(subprocess.run(['git', '-C', W, 'diff'], stdout=subprocess.PIPE, text=True).stdout)
subprocess.run('git -C %s checkout -q -- .' % W, shell=True)
open(D + '/demo.cpp', 'w').write(spec['DEMO'])
src = ' '.join(spec.get('SRC', []))
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# run in the repository root: exit 0 if the property holds on the demonstrated input, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
inc=""
for d in sm_*/include; do inc="$inc -I$d"; done
g++ -std=c++14 -O1 -w -DBOOST_BIND_GLOBAL_PLACEHOLDERS -include boost/bind.hpp -I/usr/include/eigen3 $inc "$here/demo.cpp" %s -o "$out/demo" %s || { rm -rf "$out"; exit 2; }
(cd "$out" && timeout 120 ./demo); r=$?
rm -rf "$out"
exit $r
''' % (src, spec.get('FLAGS', '')))
os.chmod(D + '/demo.sh', 0o755)
json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(D + '/meta.json', 'w'), indent=1)
r = subprocess.run(['bash', D + '/demo.sh'], cwd=W).returncode
assert r == 0, 'demo fails on the unchanged tree (%d)' % r
subprocess.run(['git', '-C', W, 'apply', D + '/patch.diff'], check=True)
r = subprocess.run(['bash', D + '/demo.sh'], cwd=W).returncode
subprocess.run('git -C %s checkout -q -- .' % W, shell=True)
assert r not in (0, 2), 'demo does not detect the change (%d)' % r
print(spec['ID'], 'demo ok; existing tests: run vcheck --bug or tools/seedtests.sh')
