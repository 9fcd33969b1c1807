#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough] -- decide one property on /repo's current tree.

1. The deductive verifier (pyvc) parses the functions of /repo the property depends
   on, generates the obligations of the contracts in contracts/<id>.py and
   discharges them.
2. The run-time contract evaluation (rt/<id>.py) exercises the same contracts on
   the real code with a stated bound; it is the replay side of step 1 and the
   bounded stand-in for what step 1 cannot reach.

exit 0: every obligation discharged or covered by the bounded stand-in, no violation
exit 1: VIOLATION property=<id> replay=<path>
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SHGPY_REPO', '/repo')
RUNTIME = '/opt/venv/bin/python'
PROVER = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
MEM = 6*2**30


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4*MEM, 4*MEM))


def env(scratch):
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'), OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', TMPDIR=os.path.join(scratch, 'tmp'), HOME=scratch, PYTHONHASHSEED='0', SHGPY_REPO=REPO)
    os.makedirs(e['TMPDIR'], exist_ok=True)
    return e


def start_rt(pid, seed, tier, budget, scratch, deep=False, tag=''):
    out = os.path.join(scratch, 'rt%s.json' % tag)
    e = env(scratch)
    if deep:
        e['SHGPY_DEEP'] = '1'
    p = subprocess.Popen([RUNTIME, os.path.join(HERE, 'rt', pid.lower()+'.py'), '--out', out, '--seed', str(seed), '--tier', tier, '--budget', str(budget)],
                         env=e, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    return p, out


def finish(p, out, timeout):
    try:
        log, _ = p.communicate(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        kill(p)
        return {'crash': 'timeout', 'fails': [], 'known': [], 'evaluations': 0, 'distinct': 0, 'samples': [], 'contracts': {}, 'timeout': True}
    try:
        d = json.load(open(out))
    except Exception:
        d = {'crash': 'no result (exit status %s)\n%s' % (p.returncode, (log or '')[-3000:]), 'fails': [], 'known': [], 'evaluations': 0, 'distinct': 0, 'samples': [], 'contracts': {}}
    return d


def kill(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.communicate(timeout=10)
    except Exception:
        pass


def start_proof(pid, tier, deadline, scratch):
    if not os.path.exists(os.path.join(HERE, 'contracts', pid.lower()+'.py')):
        return None, None
    out = os.path.join(scratch, 'proof.json')
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', SHGPY_REPO=REPO)
    e.pop('PYTHONPATH', None)
    p = subprocess.Popen([PROVER, '-m', 'pyvc.prove', pid, '--out', out, '--tier', tier, '--deadline', str(deadline)],
                         env=e, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    return p, out


def known_findings(pid):
    r = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return r


def main():
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    total = 840 if tier == 'quick' else 5400
    spec = json.load(open(os.path.join(HERE, 'levels.json'))).get(pid, {})
    scratch = tempfile.mkdtemp(prefix='shgpy_check_%s_' % pid)
    try:
        return decide(pid, tier, seed, t0, total, spec, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, tier, seed, t0, total, spec, scratch):
    left = lambda: total-(time.time()-t0)
    budget = 12 if tier == 'quick' else 240
    pp, pout = start_proof(pid, tier, min(left()-60, spec.get('proof_deadline', 240) if tier == 'quick' else 1200), scratch)
    rp, rout = start_rt(pid, seed, tier, budget, scratch)
    proof = None
    if pp is not None:
        proof = finish(pp, pout, spec.get('proof_deadline', 240)+30 if tier == 'quick' else 1300)
    rt = finish(rp, rout, left()-30)
    obls = proof.get('obligations', []) if proof else []
    bad = [o for o in obls if not o['ok']]
    und = list(proof.get('unsupported', [])) if proof else []
    if proof and proof.get('crash'):
        und.append({'function': '(verifier)', 'reason': proof['crash'][-1500:]})
    refuted = [o for o in bad if o.get('concl')]
    complete = bool(proof) and bool(obls) and not bad and not und
    deep = None
    if proof and not complete and not rt['fails']:
        # replay search / bounded stand-in with a larger budget
        p, out = start_rt(pid, seed+1000, tier, min(left()-60, 60 if not spec.get('deep') else 600), scratch, deep=True, tag='deep')
        deep = finish(p, out, left()-20)
    elif not proof and spec.get('deep') and tier == 'quick' and not rt['fails']:
        p, out = start_rt(pid, seed, tier, left()-60, scratch, deep=True, tag='deep')
        deep = finish(p, out, left()-20)
    runs = [r for r in (rt, deep) if r]
    fails = [f for r in runs for f in r['fails']]
    found = [k for r in runs for k in r['known']]
    listed = known_findings(pid)
    for k in {k['key']: k for k in found}.values():
        if k['key'] in [key for key, _ in listed]:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k['input'], k['observed']))
        else:
            fails.append(k)
    crashes = [r['crash'] for r in runs if r.get('crash') and not r.get('timeout')]
    for c in crashes:
        if REPO+'/shgpy' in c or 'shgpy' in c.split('\n')[-2:][0]:
            fails.append({'contract': 'no exception', 'input': 'see traceback', 'observed': c})
    status = 0
    lines = []
    if fails or refuted:
        rdir = os.path.join(HERE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.json' % pid)
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'failing_inputs': fails, 'failed_obligations': bad, 'undecided': und,
                   'replay': 'VERIF_SEED=%d %s %s %s' % (seed, sys.executable, os.path.join(HERE, 'run.py'), pid)}, open(path, 'w'), indent=1)
        for f in fails[:3]:
            print('contract broken: %s\n  input: %s\n  observed: %s' % (f['contract'], f['input'][:600], f['observed'][:1200]))
        for o in bad[:6]:
            print('failed obligation: %s [%s]\n  %s' % (o['name'], o.get('function', ''), o.get('detail', '')[:800]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if fails else ' no-failing-input-found'))
        status = 1
    else:
        for o in bad:
            print('undecided obligation: %s: %s' % (o['name'], o.get('detail', '')[:300]))
        for u in und:
            print('undecided: %s: %s' % (u['function'], u['reason'][:300]))
        if crashes:
            print('harness error:\n'+crashes[0])
            status = 2 if not complete else 0
    evidence(pid, tier, seed, t0, spec, proof, obls, bad, und, complete, rt, deep, fails, refuted)
    print('%s: %s; %d obligations, %d discharged; %d run-time contract evaluations; %.1f s' % (
        pid, {0: 'held', 1: 'VIOLATED', 2: 'no verdict'}[status], len(obls), len(obls)-len(bad), sum(r['evaluations'] for r in runs), time.time()-t0))
    return status


def evidence(pid, tier, seed, t0, spec, proof, obls, bad, und, complete, rt, deep, fails, refuted):
    runs = [r for r in (rt, deep) if r]
    level = spec.get('level', 'exploration')
    if level == 'proof' and not complete:
        level = 'exploration'
    by = {}
    for o in obls:
        if o['ok']:
            by[o['how']] = by.get(o['how'], 0)+1
    contracts = {}
    for r in runs:
        for k, v in r['contracts'].items():
            contracts[k] = contracts.get(k, 0)+v
    cov = {
        'evaluations': sum(r['evaluations'] for r in runs),
        'distinct_nontrivial': sum(r['distinct'] for r in runs),
        'rule': 'run-time evaluations of the contracts of this property on the real code (bounded); inputs generated from the seed, distinct by contract and input; an evaluation counts as non-trivial when at least one postcondition was compared',
        'samples': [s for r in runs for s in r['samples']][:6],
        'runtime_contracts': contracts,
    }
    assumptions = list(spec.get('assumptions', []))
    if proof is not None:
        cov.update({
            'obligations': len(obls), 'discharged': len(obls)-len(bad),
            'checker_cmd': '%s -m pyvc.prove %s (in %s)' % (PROVER, pid, HERE),
            'discharged_by': by, 'functions_under_contract': proof.get('functions', []),
            'solver_seconds': proof.get('solver_s', 0), 'solver_queries': proof.get('queries', 0), 'proof_wall_s': proof.get('wall_s', 0),
            'trusted_base': proof.get('trusted', []), 'paths': proof.get('paths', 0),
            'reachability_checks': proof.get('reach', 0),
            'undischarged': [{'name': o['name'], 'detail': o.get('detail', '')[:300]} for o in bad],
            'outside_reach': und, 'complete': complete,
            'obligation_names': [o['name'] for o in obls][:400],
        })
        assumptions += proof.get('assumptions', [])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time()-t0, 2),
               'violations': len(fails)+(len(refuted) if not fails else 0)}, open(os.path.join(HERE, 'evidence', pid+'.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
