"""python3-vt -m vf.replay FILE: rebuilds the native contracts and re-evaluates the recorded failing input on the real code"""
import json, os, subprocess, sys, tempfile, shutil
from . import build, config


def main():
    d = json.load(open(sys.argv[1]))
    if 'failing_input' not in d:
        print(json.dumps(d, indent=1))
        return 1
    w = tempfile.mkdtemp(prefix='vf-replay-')
    try:
        cfg = dict(config.CHECKS[d['property']], mode='none')
        _, exe = build.build(d['property'], cfg, w)
        f = w + '/in'
        hit = d['failing_input']
        if hit.get('inputs'):
            open(f, 'w').write(''.join('%s=%s\n' % kv for kv in hit['inputs'].items()))
            cmd = [exe, 'replay', d['contract'], f]
        else:
            cmd = [exe, 'replay', d['contract'], str(hit.get('seed', 0)), str(hit.get('iteration', 0))]
        return subprocess.run(cmd).returncode
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    sys.exit(main())
