#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

1. contracts: symbolic execution of /repo's current source, every obligation discharged by z3 / cvc5 (contracts/cXX.py);
2. run-time contracts on seeded inputs under CPython (oracle/cXX.py), a guard on the engine and its library models, and the
   bounded stand-in for whatever the verifier could not decide;
3. a failed obligation is searched for a concrete failing input on the real code.
Exit 0: held on everything explored.  Exit 1: a VIOLATION line.  Anything else: the check itself is broken."""
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ENGINE_PY = '/opt/veriftools/pyvenv/bin/python3'
REAL_PY = '/opt/venv/bin/python'
T_QUICK = dict(contracts=300, oracle=60, search=180)
T_THOROUGH = dict(contracts=1500, oracle=600, search=900)


def env_real():
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    if os.path.isdir('/opt/venv/mplconfig'):
        e['MPLCONFIGDIR'] = '/opt/venv/mplconfig'
    return e


def start_oracle(prop, tier, seed, budget, out):
    return subprocess.Popen([REAL_PY, os.path.join(HERE, 'oracle', 'runner.py'), prop, tier, str(seed), str(budget), out],
                            cwd=HERE, env=env_real(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)


def wait(p, limit):
    try:
        _, err = p.communicate(timeout=limit)
        return p.returncode, err or ''
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'time limit'


def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    lim = T_THOROUGH if tier == 'thorough' else T_QUICK
    t0 = time.time()
    work = os.path.join(HERE, 'evidence', '.work')
    os.makedirs(work, exist_ok=True)
    rep = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rep, exist_ok=True)
    oout, cout = os.path.join(work, prop + '.oracle.json'), os.path.join(work, prop + '.contracts.json')
    for f in (oout, cout, cout + '.part'):
        if os.path.exists(f):
            os.unlink(f)
    po = start_oracle(prop, tier, seed, lim['oracle'], oout)
    has_contracts = os.path.exists(os.path.join(HERE, 'contracts', prop.lower() + '.py'))
    contracts = []
    if has_contracts:
        e = dict(os.environ)
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        e['PYVC_LIMIT'] = str(lim['contracts'])
        pc = subprocess.Popen([ENGINE_PY, '-m', 'contracts.runner', prop, tier, cout], cwd=HERE, env=e,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        clog, t1 = '', time.time()
        while True:
            try:
                clog, _ = pc.communicate(timeout=1)
                break
            except subprocess.TimeoutExpired:
                pass
            early = po.poll() is not None and bool((load(oout) or {}).get('bad'))
            if time.time() - t1 > (30 if early else lim['contracts'] + 90):
                # a failing input is in hand, or the time is up: stop the verifier and its workers
                os.killpg(pc.pid, signal.SIGKILL)
                pc.communicate()
                clog = 'stopped'
                break
        contracts = load(cout)
        if contracts is None and clog == 'stopped':
            contracts = (load(cout + '.part') or []) + [dict(contract='others', obligations=[], undecided='stopped: ' + ('a failing input was found first' if early else 'time limit'), called=[], assumptions=[], time=round(time.time() - t1, 1))]
        if contracts is None:
            print('error: the contract runner gave no result:\n' + (clog or '')[-2000:])
            po.kill()
            return 3
    rc, err = wait(po, lim['oracle'] + 90)
    orc = load(oout)
    if orc is None:
        print('error: the run-time contract runner gave no result: %s' % err[-2000:])
        return 3

    obs = [dict(o, contract=c['contract']) for c in contracts for o in c['obligations']]
    failed = [o for o in obs if o['status'] == 'failed']
    vac = [o for o in obs if o['status'] == 'vacuous']
    unk = [o for o in obs if o['status'] == 'unknown']
    undecided = [c for c in contracts if c['undecided']]
    covers = [o for o in obs if o['name'].startswith('cover: ')]
    proofs = [o for o in obs if not o['name'].startswith('cover: ')]
    good = [o for o in proofs if o['status'] == 'ok']
    complete = has_contracts and proofs and not failed and not vac and not unk and not undecided
    violations = []

    def write_replay(kind, payload):
        path = os.path.join(rep, '%s-%s.json' % (prop, kind))
        json.dump(payload, open(path, 'w'), indent=1)
        return path

    search = None
    if (failed or undecided or unk or vac) and not orc['bad']:
        # bounded stand-in / witness search on the real code with another seed and the thorough generator
        sout = os.path.join(work, prop + '.search.json')
        if os.path.exists(sout):
            os.unlink(sout)
        left = max(30, min(lim['search'], (850 if tier == 'quick' else 3000) - (time.time() - t0) - 30))
        ps = start_oracle(prop, 'thorough', seed + 1000, left, sout)
        wait(ps, left + 70)
        search = load(sout)
        if search and search['bad']:
            orc['bad'] += search['bad']
    if orc['bad']:
        b = orc['bad'][0]
        path = write_replay('case', dict(property=prop, kind='input', case=b['case'], message=b['message'],
                                         failed_obligations=[o['name'] for o in failed],
                                         how='%s %s/oracle/runner.py --replay <this file>' % (REAL_PY, HERE)))
        print('failing input found on the real code: %s' % b['message'][:600])
        violations.append('VIOLATION property=%s replay=%s' % (prop, path))
    elif failed:
        o = failed[0]
        path = write_replay('obligation', dict(property=prop, kind='obligation', obligation=o['name'], function=o['fn'],
                                               contract=o['contract'], verifier_output=o['note'],
                                               all_failed=[dict(name=x['name'], fn=x['fn'], note=x['note']) for x in failed]))
        print('obligation not discharged: %s (%s): %s' % (o['name'], o['fn'], o['note'][:300]))
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))

    by = {}
    for o in good:
        by[o['backend']] = by.get(o['backend'], 0) + 1
    fns = sorted({f for c in contracts for f in c['called']})
    assumptions = sorted({a for c in contracts for a in c['assumptions']})
    trusted = sorted({a for c in contracts for a in c.get('trusted', [])})
    import manifest_data as M
    level = M.LEVEL[prop]
    cov = dict(evaluations=orc['evaluations'] + (search['evaluations'] if search else 0),
               distinct_nontrivial=orc['distinct'] + (search['distinct'] if search else 0),
               rule='run-time contracts on the real code: seeded generator oracle/%s.py, cases by kind %s; counted distinct by their full input text' % (prop.lower(), json.dumps(orc['kinds'])),
               samples=orc['samples'][:2],
               run_time_contracts_bounded=dict(seed=seed, budget_s=lim['oracle'], stopped=orc.get('stopped')))
    if has_contracts:
        cov.update(obligations=len(proofs), discharged=len(good), checker_cmd='cd %s && %s -m contracts.runner %s %s OUT.json' % (HERE, ENGINE_PY, prop, tier),
                   trusted_base=M.TRUSTED + trusted,
                   functions_under_contract=fns,
                   by_back_end=by, covers=dict(total=len(covers), reachable=sum(o['status'] == 'ok' for o in covers)),
                   solver_time_s=round(sum(o['time'] for o in obs), 2),
                   contracts=[dict(contract=c['contract'], obligations=len(c['obligations']), seconds=c['time'], undecided=c['undecided']) for c in contracts],
                   obligation_names=[o['fn'] + ': ' + o['name'] for o in proofs][:200],
                   not_discharged=[dict(name=o['name'], fn=o['fn'], status=o['status'], note=o['note'][:300]) for o in failed + unk + vac],
                   complete=bool(complete),
                   bounded_parts=M.BOUNDED.get(prop, []) + ['%s: undecided (%s); the run-time contract stands in, bounded' % (c['contract'], c['undecided']) for c in undecided])
        if level == 'proof' and not complete and not violations:
            # never report as proved what was not
            cov['note'] = 'not all obligations were discharged on this run; the undecided part is only covered by the bounded run-time contracts'
    else:
        cov['explanation'] = 'no contract within reach; bounded run-time contract only'
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=M.ASSUMPTIONS + M.PRE.get(prop, []) + assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d failed, %d unknown, %d contracts undecided; %d run-time evaluations; %.1f s'
          % (prop, tier, len(proofs), len(good), len(failed), len(unk), len(undecided), orc['evaluations'], time.time() - t0))
    for c in undecided:
        print('  undecided contract %s: %s' % (c['contract'], c['undecided']))
    for o in unk + vac:
        print('  %s obligation %s: %s %s' % (o['status'], o['contract'], o['name'], o['note'][:200]))
    listed = M.known_findings(HERE)
    for k in orc['known']:
        if (prop, k) in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, listed[(prop, k)]))
        else:
            path = write_replay('case', dict(property=prop, kind='input', case=json.loads(orc['known'][k]), message=k))
            violations.append('VIOLATION property=%s replay=%s' % (prop, path))
    if violations:
        print(violations[0])
        return 1
    if orc['errors']:
        print('error: the run-time contract could not be evaluated: %s' % orc['errors'][0])
        return 3
    if orc['evaluations'] == 0 or (has_contracts and not obs and not undecided):
        print('error: nothing was checked')
        return 3
    return 0


if __name__ == '__main__':
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.exit(main())
