"""driver of one property's check: extraction, proof of every contract entry, native replay, evidence"""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from . import build, config

HARD = 840.0


def make_run(prog, entry, cfg, seed=1, budget=None, scale=1):
    from . import engine, models, slib, smap, sfile
    em = cfg.get('entry_mode', {}).get(short(entry), cfg['mode'])
    r = engine.Run(prog, entry, seed=seed, mode='real' if em == 'rounding' else em, models=(slib.SModels if cfg.get('smode') else models.Models)(), budget=budget)
    r.rounding = em == 'rounding'
    r.z3timeout = int(cfg.get('z3timeout', r.z3timeout) * scale)
    r.maxpaths = cfg.get('maxpaths', r.maxpaths)
    r.maxdecisions = cfg.get('maxdecisions', r.maxdecisions)
    r.maxsteps = cfg.get('maxsteps', r.maxsteps)
    return r


def short(entry):
    return entry.split('__', 2)[2]


def summarize(r):
    from .engine import demangle
    return dict(
        obl=[dict(name=o.name, n=o.n, status=o.status, backend=o.backend, detail=o.detail, cex=o.cex, time=round(o.time, 3))
             for o in r.obl.values()],
        paths=r.npaths, undecided=sorted(set(r.undecided)), assumptions=dict(r.assumptions), solver=dict(r.prover.time),
        reached=sorted(r.reached), stubbed=sorted(demangle(x) for x in r.stubbed), bodies=sorted(demangle(x) for x in r.entry_bodies),
        executed=sorted(demangle(x) for x in r.executed if 'sm' in x), nz3=r.nz3, wall=r.wall)


def ok_result(s):
    return not s['undecided'] and all(o['status'] == 'discharged' for o in s['obl']) and s['obl'] and 'end' in s['reached']


def verify_task(binf, entry, cfg, seed, budget, conn):
    try:
        from . import engine
        prog = engine.Program(binf)
        r = make_run(prog, entry, cfg, seed, budget)
        r.verify()
        s = summarize(r)
        if not ok_result(s) and any(o['status'] != 'failed' and o['status'] != 'discharged' for o in s['obl']) and not any(o['status'] == 'failed' for o in s['obl']):
            # undecided: one retry with longer solver time
            r = make_run(prog, entry, cfg, seed + 1, budget, 3)
            r.verify()
            s2 = summarize(r)
            s2['retry'] = True
            s = s2
        conn.send(s)
    except BaseException:
        conn.send(dict(error=traceback.format_exc()))
    conn.close()


class Pool:
    """at most n child processes; each task = (key, fn, args, limit)"""

    def __init__(self, n, deadline):
        self.n = n
        self.deadline = deadline
        self.results = {}

    def run(self, tasks):
        tasks = list(tasks)
        live = {}
        while tasks or live:
            while tasks and len(live) < self.n:
                key, fn, args, limit = tasks.pop(0)
                a, b = mp.Pipe(False)
                pr = mp.Process(target=fn, args=args + (b,), daemon=True)
                pr.start()
                b.close()
                live[key] = (pr, a, min(time.time() + limit, self.deadline))
            for key in list(live):
                pr, a, lim = live[key]
                if a.poll(0.01 if len(live) < 3 else 0.003):
                    try:
                        self.results[key] = a.recv()
                    except EOFError:
                        self.results[key] = dict(error='verifier process died (exit %s)' % pr.exitcode)
                    pr.join()
                    del live[key]
                elif time.time() > lim:
                    pr.kill()
                    pr.join()
                    self.results[key] = dict(timeout=True)
                    del live[key]
        return self.results


def native_task(exe, entry, seed, secs, maxit, conn):
    try:
        r = subprocess.run([exe, 'run', entry, str(seed), str(secs), str(maxit)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           cwd=os.path.dirname(exe))
        out = dict(rc=r.returncode, evaluations=0, skipped=0, checks=0, reach={}, fail=None)
        for l in r.stdout.decode('utf8', 'replace').splitlines():
            if not l.startswith('{"'):
                continue
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if 'failed' in j and 'check' in j:
                out['fail'] = out['fail'] or j
            else:
                out.update(j)
        conn.send(out)
    except BaseException:
        conn.send(dict(error=traceback.format_exc()))
    conn.close()


def replay(exe, name, inputs, work, i=[0]):
    i[0] += 1
    f = '%s/replay%d.txt' % (work, i[0])
    with open(f, 'w') as h:
        for k, v in inputs.items():
            h.write('%s=%s\n' % (k, repr(v) if isinstance(v, float) else v))
    try:
        r = subprocess.run([exe, 'replay', name, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, cwd=work)
    except subprocess.TimeoutExpired:
        return dict(check=name, failed='does not terminate', inputs=inputs)
    if r.returncode == 1:
        for l in r.stdout.decode('utf8', 'replace').splitlines():
            if l.startswith('{"check"'):
                try:
                    return json.loads(l)
                except ValueError:
                    pass
        return dict(check=name, failed='replay failed', inputs=inputs)
    if r.returncode < 0:
        return dict(check=name, failed='process died (signal %d)' % -r.returncode, inputs=inputs)
    return None


def findings(prop):
    try:
        return [f for f in json.load(open(config.VERIF + '/known_findings.json')) if f['property'] == prop and f['status'] == 'known']
    except FileNotFoundError:
        return []


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args(argv)
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    deadline = t0 + HARD
    cfg = config.CHECKS[prop]
    evd = config.VERIF + '/evidence'
    os.makedirs(evd, exist_ok=True)
    work = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    try:
        return run(prop, tier, seed, cfg, work, evd, t0, deadline)
    except build.BuildError as ex:
        if not ex.contract:
            print('BUILD ERROR (no verdict)\n%s' % ex)
            return 2
        # the changed sources compile, but the contracts cannot be stated over them: no obligation is discharged
        path = '%s/%s.replay1.json' % (evd, prop)
        json.dump(dict(property=prop, failed_obligation='the contracts apply to the sources', status='undecided', verifier_output=str(ex)), open(path, 'w'), indent=1)
        json.dump(dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=1,
                       coverage=dict(explanation='the contracts do not compile against the sources: nothing was decided', obligations=1, discharged=0)),
                  open('%s/%s.json' % (evd, prop), 'w'), indent=1)
        print('obligation "the contracts apply to the sources" undecided: %s' % str(ex)[-1500:])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, cfg, work, evd, t0, deadline):
    binf, exe = build.build(prop, cfg, work)
    tb = time.time() - t0
    names = []
    for l in subprocess.run([exe, 'list'], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines():
        p, n = l.split(' ', 1)
        if p == prop:
            names.append(n)
    entries = []
    if binf:
        from . import engine
        prog = engine.Program(binf)
        pre = 'vf_check__%s__' % prop
        entries = sorted(n for n in prog.mod.functions if n.startswith(pre) and not prog.mod.functions[n].decl)
    if not names and not entries:
        print('no contract entries for %s' % prop)
        return 2
    quick = tier == 'quick'
    fnd = {f['check']: f for f in findings(prop)}
    per = cfg.get('native_secs', 4 if quick else 25)
    per = min(per, (240.0 if quick else 480.0) * 8 / max(1, len(names)))
    budget = cfg.get('budget', 360)
    tasks = []
    for e in entries:
        tasks.append((('v', short(e)), verify_task, (binf, e, cfg, seed, budget), 2 * budget + 30))
    for n in names:
        tasks.append((('n', n), native_task, (exe, n, seed, per, cfg.get('native_maxit', 200000 if quick else 5000000)), per + 60))
    # natives of entries without a proof may use the remaining time
    pool = Pool(build.JOBS, t0 + HARD - 90)
    res = pool.run(tasks)

    viol = []
    known = []
    errors = []
    obligations = discharged = 0
    backends = {}
    assumptions = {}
    solver = {}
    funcs = set()
    stubbed = set()
    executed = set()
    samples = []
    undis = []
    bnd = cfg.get('size_bounded', {})
    bobl = bdis = 0
    for e in entries:
        n = short(e)
        s = res[('v', n)]
        if 'error' in s:
            # the verifier could not process the changed source: the obligations of the entry are open
            obligations += 1
            undis.append((n, 'all obligations of the entry', 'undecided', 'verifier error: ' + s['error'][-1500:], None))
            continue
        if s.get('timeout'):
            obligations += 1
            undis.append((n, 'all obligations of the entry', 'undecided', 'verifier time limit', None))
            continue
        for o in s['obl']:
            if n in bnd:
                bobl += 1
            else:
                obligations += 1
            if o['status'] == 'discharged':
                if n in bnd:
                    bdis += 1
                else:
                    discharged += 1
            else:
                undis.append((n, o['name'], o['status'], o['detail'], o['cex']))
            for b, k in o['backend'].items():
                backends[b] = backends.get(b, 0) + k
        if s['undecided']:
            obligations += 1
            undis.append((n, 'all paths of the entry explored', 'undecided', '; '.join(s['undecided'])[:1500], None))
        elif 'end' not in s['reached'] or not s['obl']:
            obligations += 1
            undis.append((n, 'contract is not vacuous', 'undecided', 'no path reaches the end of the entry', None))
        for k, v in s['assumptions'].items():
            assumptions[k] = assumptions.get(k, 0) + v
        for k, v in s['solver'].items():
            solver[k] = round(solver.get(k, 0) + v, 3)
        funcs |= set(s['bodies'])
        stubbed |= set(s['stubbed'])
        executed |= set(s['executed'])
    nat_ev = nat_checks = 0
    nat = {}
    for n in names:
        s = res[('n', n)]
        if 'error' in s:
            errors.append('%s: %s' % (n, s['error'][-1500:]))
            continue
        if s.get('timeout'):
            undis.append((n, 'native evaluation', 'undecided', 'time limit', None))
            continue
        nat[n] = dict(evaluations=s['evaluations'], skipped=s['skipped'], obligations_evaluated=s['checks'], reach=s['reach'])
        nat_ev += s['evaluations']
        nat_checks += s['checks']
        if s['fail']:
            viol.append((n, s['fail']['failed'], s['fail'], None))
        elif s['evaluations'] == 0:
            undis.append((n, 'contract is not vacuous', 'undecided', 'no native evaluation satisfied the preconditions', None))
    bad = {v[0] for v in viol}
    tail = []
    for (n, on, st, detail, cex) in undis:
        hit = None
        if n in names and n not in bad:
            if cex:
                hit = replay(exe, n, cex, work)
            if not hit and time.time() < deadline - 60:
                for k in range(3):
                    p2 = Pool(1, deadline - 20)
                    r = p2.run([(0, native_task, (exe, n, seed + 100 + k, 6, 10 ** 9), 40)])[0]
                    if r.get('fail'):
                        hit = r['fail']
                        break
        if hit:
            bad.add(n)
            viol.append((n, '%s: %s' % (on, hit['failed']), hit, dict(obligation=on, status=st, detail=detail, counterexample=cex)))
        elif n not in bad:
            tail.append((n, on, st, detail, cex))
    # ---- report
    out = []
    nv = 0
    k = 0
    for f in os.listdir(evd):
        if f.startswith('%s.replay' % prop):
            os.remove(evd + '/' + f)
    for (n, what, hit, extra) in viol:
        if n in fnd:
            print('KNOWN-FINDING: property=%s %s' % (prop, fnd[n]['description']))
            known.append(n)
            continue
        k += 1
        path = '%s/%s.replay%d.json' % (evd, prop, k)
        json.dump(dict(property=prop, contract=n, failed_obligation=what, failing_input=hit, verifier=extra, seed=seed,
                       how='python3-vt -m vf.replay %s' % path), open(path, 'w'), indent=1, default=str)
        print('contract %s: %s; input %s' % (n, what, json.dumps(hit.get('inputs', {}))[:600]))
        out.append('VIOLATION property=%s replay=%s' % (prop, path))
        nv += 1
    for (n, on, st, detail, cex) in tail:
        k += 1
        path = '%s/%s.replay%d.json' % (evd, prop, k)
        json.dump(dict(property=prop, contract=n, failed_obligation=on, status=st, verifier_output=detail, counterexample=cex, seed=seed),
                  open(path, 'w'), indent=1, default=str)
        print('contract %s: obligation "%s" %s: %s' % (n, on, st, (detail or '')[:400]))
        out.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        nv += 1
    for n in fnd:
        if n not in known:
            print('note: known finding %s of %s no longer fails' % (n, prop))
    bounded = sorted(n for n in names if pre_not_in(n, entries))
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd='python3-vt -m vf.check %s --tier %s' % (prop, tier),
        trusted_base=config.TRUSTED + cfg.get('trusted', []),
        contract_entries=len(entries), functions_under_contract=sorted(funcs), functions_verified_by_path_execution=sorted(executed - funcs)[:200],
        contracts_used_at_call_sites=sorted(stubbed), backends=backends, solver_seconds=solver,
        entry_seconds={short(e): round(res[('v', short(e))].get('wall', 0), 2) for e in entries},
        paths={short(e): res[('v', short(e))].get('paths', 0) for e in entries},
        bounded_obligations=bobl, bounded_discharged=bdis,
        bounded_entries=['%s: every input within the bound %s (exhaustive symbolic execution, not counted as proved)' % kv for kv in sorted(bnd.items())]
        + ['%s: random native evaluation only' % n for n in bounded], native_evaluations=nat_ev, native_obligations_evaluated=nat_checks, native=nat,
        evaluations=nat_ev, distinct_nontrivial=nat_ev,
        rule='native evaluations: seeded directed generation (8 input families); an evaluation counts when its preconditions hold; seeds/iterations are distinct',
        samples=[dict(contract=n, evaluations=nat[n]['evaluations']) for n in list(nat)[:5]],
        explanation=cfg.get('explanation', ''), build_seconds=round(tb, 1), known_findings=known)
    ass = list(config.ASSUMPTIONS[cfg['mode']]) + cfg.get('assumptions', []) + ['%s (x%d)' % kv for kv in sorted(assumptions.items())]
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'proof'), coverage=cov, assumptions=ass,
              wall_s=round(time.time() - t0, 2), violations=nv)
    json.dump(ev, open('%s/%s.json' % (evd, prop), 'w'), indent=1, default=str)
    if bobl:
        print('%s: %d/%d further obligations hold within the stated bounds' % (prop, bdis, bobl))
    print('%s %s: %d/%d obligations discharged in %d entries, %d native evaluations, %.1f s' % (
        prop, tier, discharged, obligations, len(entries), nat_ev, time.time() - t0))
    for e in errors:
        print('ERROR ' + e)
    for l in out:
        print(l)
    if nv:
        return 1
    return 2 if errors else 0


def pre_not_in(n, entries):
    return not any(short(e) == n for e in entries)


if __name__ == '__main__':
    sys.exit(main())
