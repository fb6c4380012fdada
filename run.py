#!/usr/bin/env python3
"""Decide one property:  python3-vt run.py C01 [--tier quick|thorough]

1. every contract of contracts/<id>.py is verified against the current source of /repo
   (one process per contract and configuration);
2. the same contracts are checked at run time on the real code (oracle/<id>.py), which is
   also the search for a failing input when an obligation is not discharged.
"""
import os
import re
import sys
import json
import time
import hashlib
import argparse
import importlib
import subprocess
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
VT = sys.executable
REPO = os.environ.get('PYVC_REPO', '/repo')
NPROC = int(os.environ.get('PYVC_JOBS', '8'))
DEADLINE = {'quick': 600., 'thorough': 3000.}


def oracle_cmd(mod, seed, tier, budget, out, start=0, factor=1):
    return [PY, os.path.join(HERE, 'oracle', 'lib.py'), mod, '--seed', str(seed), '--tier', tier,
            '--budget', str(budget), '--start', str(start), '--factor', str(factor), '--out', out]


class Jobs(object):
    """Runs commands in parallel, each with a time limit."""

    def __init__(self, n):
        self.n, self.queue, self.run = n, [], []

    def add(self, key, cmd, limit):
        self.queue.append((key, cmd, limit))

    def wait(self, deadline):
        done = {}
        env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        while self.queue or self.run:
            now = time.time()
            while self.queue and len(self.run) < self.n:
                key, cmd, limit = self.queue.pop(0)
                if now > deadline:
                    done[key] = 'deadline'
                    continue
                err = tempfile.TemporaryFile()
                p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=err, stderr=err)
                self.run.append((key, p, min(now + limit, deadline + 30), err))
            keep = []
            for key, p, end, err in self.run:
                if p.poll() is not None:
                    err.seek(0)
                    done[key] = (p.returncode, err.read()[-3000:].decode('utf-8', 'replace'))
                elif now > end:
                    p.kill()
                    p.wait()
                    done[key] = 'timeout'
                else:
                    keep.append((key, p, end, err))
            self.run = keep
            if self.run:
                time.sleep(.02)
        return done


def read_json(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (IOError, OSError, ValueError):
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    mod = a.id.lower()
    tmp = tempfile.mkdtemp(prefix='pyvc')
    try:
        return decide(a.id, mod, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, mod, tier, seed, t0, tmp):
    jobs = Jobs(NPROC)
    deadline = t0 + DEADLINE[tier]
    cm = importlib.import_module('contracts.' + mod)
    todo = []
    has_oracle = os.path.exists(os.path.join(HERE, 'oracle', mod + '.py'))
    oout = os.path.join(tmp, 'oracle.json')
    obudget = 60. if tier == 'quick' else 900.
    if has_oracle:
        jobs.add('oracle', oracle_cmd(mod, seed, tier, obudget, oout), obudget + 90)
    for i, c in enumerate(cm.CONTRACTS):
        if c.trusted:
            continue
        for j, cfg in enumerate(c.configs()):
            if getattr(c, 'thorough_only', None) and tier == 'quick' and c.thorough_only(cfg):
                continue
            out = os.path.join(tmp, '%d-%d.json' % (i, j))
            todo.append((i, j, c, cfg, out))
            jobs.add((i, j), [VT, '-m', 'pyvc.job', mod, str(i), str(j), out], c.budget + 120)
    lemmas = list(getattr(cm, 'LEMMAS', []))
    for f in lemmas:
        jobs.add(f, ['lean', os.path.join('lemmas', f)], 400)
    done = jobs.wait(deadline)

    # -- verifier results --------------------------------------------------------------
    reps, failed, undecided, proofs = [], [], [], 0
    obls = disch = bobls = bdisch = 0
    for i, j, c, cfg, out in todo:
        r = read_json(out)
        nm = (c.title or c.qual) + ('' if cfg is None else ' [%s]' % (cfg,))
        if not r:
            r = dict(name=nm, qual=c.qual, unsupported='verifier process: %r' % (done.get((i, j)),),
                     obligations=[], vacuous=False, secs=0., stats={}, bounded=bool(c.bounded),
                     used=[], inlined=[], loops=[], paths=0, bound_text=c.bound_text)
        r['label'] = nm
        reps.append(r)
        n = len(r['obligations'])
        k = len([o for o in r['obligations'] if o['status'] == 'proved'])
        if r['bounded']:
            bobls, bdisch = bobls + n, bdisch + k
        else:
            obls, disch = obls + n, disch + k
        if r['unsupported']:
            undecided.append((nm, 'outside the verifier: ' + r['unsupported'].split('\n')[0]))
        elif r['vacuous'] or not n:
            undecided.append((nm, 'no obligation reached (vacuous)'))
        for o in r['obligations']:
            if o['status'] == 'refuted':
                failed.append((nm, o))
            elif o['status'] != 'proved':
                undecided.append((nm, 'undecided: ' + o['name']))
    lean = {}
    for f in lemmas:
        with open(os.path.join(HERE, 'lemmas', f)) as fh:
            src = fh.read()
        names = re.findall(r'^theorem (\S+)', src, re.M)
        d = done.get(f)
        ok = isinstance(d, tuple) and d[0] == 0 and 'sorry' not in d[1] and not re.search(
            r'\b(sorry|axiom|admit)\b', src)
        lean[f] = {'theorems': names, 'checked': ok}
        obls += len(names)
        if ok:
            disch += len(names)
        else:
            undecided.append((f, 'Lean: %r' % (d,)))
    # -- run-time contracts ---------------------------------------------------------------
    orc = read_json(oout) if has_oracle else None
    if has_oracle and orc is None:
        orc = {'failure': {'case': -1, 'input': 'oracle process', 'failed': repr(done.get('oracle'))},
               'cases': 0, 'evaluations': 0, 'distinct': 0, 'samples': []}
    extra = None
    if has_oracle and not orc['failure'] and (failed or undecided):
        # an obligation is open: search further for a failing input
        left = max(30., min(120., t0 + 780 - time.time())) if tier == 'quick' else 900.
        jobs = Jobs(NPROC)
        outs = []
        n0 = cm.__dict__.get('SEARCH_START', 1000000)
        for k in range(4):
            o2 = os.path.join(tmp, 'search%d.json' % k)
            outs.append(o2)
            jobs.add(k, oracle_cmd(mod, seed + k, tier, left, o2, start=n0 + k * 100000, factor=4),
                     left + 60)
        jobs.wait(time.time() + left + 60)
        rs = [x for x in [read_json(o) for o in outs] if x]
        extra = {'cases': sum(x['cases'] for x in rs)}
        orc['cases'] += extra['cases']
        orc['evaluations'] += sum(x['evaluations'] for x in rs)
        orc['distinct'] += sum(x['distinct'] for x in rs)
        for k, x in enumerate(rs):
            if x['failure']:
                orc['failure'] = dict(x['failure'], seed=seed + k)
                break
    violations = []
    known = load_known(pid)
    rdir = os.path.join(HERE, 'replays')
    lines = []
    if orc and orc['failure']:
        f = orc['failure']
        kn = [k for k in known if k['match'] and k['match'] in f['failed']]
        if kn:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, kn[0]['what']))
        else:
            violations.append(('input', f))
    if failed and not violations:
        violations.append(('obligation', failed))
    for k in known:
        line = 'KNOWN-FINDING: property=%s %s' % (pid, k['what'])
        if line not in lines:
            lines.append(line)
    wall = time.time() - t0
    write_evidence(pid, cm, mod, tier, seed, reps, orc, undecided, failed, violations, wall,
                   obls, disch, bobls, bdisch, lean)
    # -- report -----------------------------------------------------------------------------
    print('%s: %d contracts, obligations %d/%d discharged (unbounded) %d/%d (bounded), '
          'run-time checks %d on %d inputs, %.1fs' % (
              pid, len(reps), disch, obls, bdisch, bobls, orc['evaluations'] if orc else 0,
              orc['cases'] if orc else 0, wall))
    for r in reps:
        st = 'ok' if not r['unsupported'] and not r['vacuous'] and r['obligations'] and \
            all(o['status'] == 'proved' for o in r['obligations']) else '--'
        print('  %s %-70s %d obligations%s' % (st, r['label'][:70], len(r['obligations']),
                                               ' (bounded)' if r['bounded'] else ''))
    for f in sorted(lean):
        print('  %s lemmas/%-63s %d theorems (Lean)' % ('ok' if lean[f]['checked'] else '--', f, len(lean[f]['theorems'])))
    for nm, why in undecided:
        print('  UNDECIDED %s: %s' % (nm, why[:300]))
    for l in lines:
        print(l)
    if not violations:
        return 0
    os.makedirs(rdir, exist_ok=True)
    kind, v = violations[0]
    body = {'property': pid, 'kind': kind, 'seed': seed, 'tier': tier,
            'failed_obligations': [dict(o, function=nm) for nm, o in failed],
            'undecided': [list(u) for u in undecided]}
    if kind == 'input':
        sd = v.get('seed', seed)
        body['failing_input'] = v
        body['replay_cmd'] = 'VERIF_SEED=%d %s %s/oracle/lib.py %s --seed %d --case %d' % (
            sd, PY, HERE, mod, sd, v['case'])
    txt = json.dumps(body, indent=1)
    path = os.path.join(rdir, '%s-%s.json' % (pid, hashlib.sha1(txt.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(txt)
    for nm, o in failed[:8]:
        print('  FAILED %s :: %s' % (nm, o['name']))
    if kind == 'input':
        print('  failing input (case %d): %s' % (v['case'], v['input'][:500]))
        print('  %s' % v['failed'][:800])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    else:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    return 1


def load_known(pid):
    """known-findings.txt: 'known: property=<id> match=<text> :: <what fails>'"""
    out = []
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % pid):
                    rest = line.split(' ', 2)[2]
                    m, what = rest.split(' :: ', 1)
                    out.append({'match': m.replace('match=', '', 1), 'what': what})
    except (IOError, OSError):
        pass
    return out


TRUSTED = [
    'pyvc: the symbolic interpreter of the Python subset and its built-in/numpy contracts (/verif/pyvc)',
    'SMT solvers z3 and cvc5',
    'real arithmetic stands for IEEE floats, mathematical integers for numpy integers',
    'finite-sum normalisation rules (pyvc/sums.py; stated and proved in lemmas/Sums.lean)',
]


def write_evidence(pid, cm, mod, tier, seed, reps, orc, undecided, failed, violations, wall,
                   obls, disch, bobls, bdisch, lean):
    backends = {}
    for r in reps:
        for o in r['obligations']:
            if o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
    if any(x['checked'] for x in lean.values()):
        backends['lean'] = sum(len(x['theorems']) for x in lean.values() if x['checked'])
    level = getattr(cm, 'LEVEL', 'proof')
    cov = {
        'obligations': obls, 'discharged': disch,
        'checker_cmd': 'python3-vt /verif/run.py %s --tier %s' % (pid, tier),
        'trusted_base': TRUSTED + list(getattr(cm, 'TRUSTED', [])) +
        ['assumed contract: %s' % (c.title or c.qual) for c in cm.CONTRACTS if c.trusted],
        'bounded_obligations': bobls, 'bounded_discharged': bdisch,
        'functions_under_contract': [
            {'function': r['label'], 'obligations': len(r['obligations']),
             'discharged': len([o for o in r['obligations'] if o['status'] == 'proved']),
             'bounded': (r['bound_text'] or True) if r['bounded'] else False,
             'paths': r['paths'], 'seconds': round(r['secs'], 2),
             'contracts_assumed_at_calls': r['used'], 'inlined': r['inlined'],
             'unsupported': r['unsupported']} for r in reps],
        'backends': backends, 'lean_lemmas': lean,
        'solver_queries': sum(r['stats'].get('queries', 0) for r in reps),
        'solver_seconds': round(sum(r['stats'].get('time', 0.) for r in reps), 2),
        'undecided': [list(u) for u in undecided],
        'failed': [o['name'] for _, o in failed],
    }
    if orc:
        cov.update({'evaluations': orc['cases'], 'distinct_nontrivial': orc['distinct'],
                    'rule': 'run-time contracts on the real code: ' + orc.get('rule', ''),
                    'samples': orc.get('samples', []),
                    'runtime_contract_checks': orc['evaluations']})
    if level == 'other':
        cov['explanation'] = getattr(cm, 'EXPLANATION', '')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': list(getattr(cm, 'ASSUMPTIONS', [])) +
          ['machine arithmetic treated as mathematical (reals, unbounded integers)'],
          'wall_s': round(wall, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
