#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decide one property on /repo's current tree.

   refuted   a counterexample of the obligation was found
   unproved  the proof of the obligation fails (it does not follow, or no invariant was found)
   undecided the verifier cannot treat the code (unmodelled operation, time limit, unexpected representation)
1. the deductive verifier (pyvc + props/ID.py) generates and discharges the obligations
   from the current source of /repo;
2. counterexamples of failed obligations are replayed on the real code (pyvc/battery.py),
   which also stands in, bounded and labelled so, for obligations left undecided;
3. evidence/ID.json is rewritten; exit 0, or exit 1 with a VIOLATION line.
"""
import glob
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = 'python3-vt'
REPO = os.environ.get('GOSTREPO', '/repo')
KNOWN = os.path.join(HERE, 'known_findings.jsonl')


def run_json(cmd, limit, env=None):
    """run a worker, JSON on the last line of its stdout; (result or None, problem)"""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, cwd=HERE, env=env)
    except subprocess.TimeoutExpired:
        return None, 'time limit of %d s' % limit
    out = p.stdout.decode('utf-8', 'replace').strip().splitlines()
    try:
        return json.loads(out[-1]), None
    except (IndexError, ValueError):
        return None, 'worker ended with %d: %s' % (p.returncode, p.stderr.decode('utf-8', 'replace')[-1500:])


def known_entries(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('{'):
                e = json.loads(line)
                if e['property'] == prop and e['status'] == 'known':
                    out.append(e)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    t0 = time.time()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', GOSTREPO=REPO, PYTHONHASHSEED='0')
    env['VERIF_TIER'] = tier
    evid = os.path.join(HERE, 'evidence')
    os.makedirs(evid, exist_ok=True)
    for f in glob.glob(os.path.join(evid, prop + '.replay*.json')):
        os.unlink(f)

    # 1. the verifier
    proof, why = None, None
    if os.path.exists(os.path.join(HERE, 'props', prop + '.py')):
        proof, why = run_json([PY, '-m', 'pyvc.prove', prop], 600 if thorough else 420, env)
    if proof is None:
        proof = dict(obligations=[dict(name=prop + ' (all)', status='undecided', detail=why or 'no contracts yet')],
                     functions=[], assumptions=[], hints={}, backends={}, solver_s=0)
    obs = proof['obligations']
    undecided = [o for o in obs if o['status'] == 'undecided']
    refuted = [o for o in obs if o['status'] == 'refuted'] + [o for o in obs if o['status'] == 'unproved']
    done = [o for o in obs if o['status'] == 'discharged']
    if not obs:
        undecided = [dict(name=prop, status='undecided', detail='zero obligations generated')]

    # 2. replay of counterexamples / bounded stand-in
    secs = float(os.environ.get('PYVC_SECS', 0)) or ((240 if thorough else 40) if undecided or refuted else (120 if thorough else 12))
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as tf:
        json.dump(proof.get('hints') or {}, tf)
    # independent streams on several processes
    jobs = 4 if (undecided or refuted or thorough) else 2
    procs = []
    for j in range(jobs):
        procs.append(subprocess.Popen([PY, '-m', 'pyvc.battery', prop, str(seed * 1000 + j), str(secs), tf.name],
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE, env=env))
    runs, problems = [], []
    for p in procs:
        try:
            o, e = p.communicate(timeout=secs + 150)
            runs.append(json.loads(o.decode().strip().splitlines()[-1]))
        except subprocess.TimeoutExpired:
            p.kill()
            problems.append('battery time limit')
        except (ValueError, IndexError):
            problems.append('battery: ' + e.decode('utf-8', 'replace')[-1500:])
    os.unlink(tf.name)
    ev = sum(r['evaluations'] for r in runs)
    fails = [f for r in runs for f in r['failures']]
    known_seen = sorted({k for r in runs for k in r['known']})

    # 3. verdict
    code = 0
    lines = []
    listed = {e['id']: e for e in known_entries(prop)}
    for k in listed:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, listed[k]['what']))
    for k in known_seen:
        if k not in listed and prop in ('C03', 'C06'):
            fails.append(dict(case=None, message='unlisted finding ' + k))
    rp = os.path.join(evid, prop + '.replay.json')
    if fails:
        f = fails[0]
        json.dump(dict(property=prop, case=f['case'], message=f['message'], obligation=[o['name'] for o in refuted + undecided][:20],
                       how='python3-vt -m pyvc.battery --replay <this file>   (cwd /verif)'), open(rp, 'w'), indent=1)
        lines.append('failing input: %s' % f['message'][:600])
        for o in (refuted + undecided)[:5]:
            lines.append('obligation not discharged: %s: %s' % (o['name'], str(o.get('detail'))[:300]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
        code = 1
    elif refuted:
        json.dump(dict(property=prop, case=None, obligation=refuted[0]['name'], verifier_output=refuted), open(rp, 'w'), indent=1)
        for o in refuted[:5]:
            lines.append('%s obligation: %s: %s' % (o['status'], o['name'], str(o.get('detail'))[:500]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        code = 1
    elif not ev:
        lines.append('no answer: %s' % problems)
        code = 2
    for o in undecided[:8]:
        lines.insert(0, 'UNDECIDED (bounded stand-in only): %s: %s' % (o['name'], str(o.get('detail'))[:300]))
    lines.append('%s: %d obligations, %d discharged, %d refuted or unproved, %d undecided; %d concrete evaluations; %.1f s'
                 % (prop, len(obs), len(done), len(refuted), len(undecided), ev, time.time() - t0))

    m = [c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks'] if c['property'] == prop]
    level = m[0]['level'] if m else 'exploration'
    json.dump({
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': len(obs), 'discharged': len(done),
            'undischarged': [dict(name=o['name'], status=o['status'], detail=str(o.get('detail'))[:400]) for o in refuted + undecided],
            'obligation_names': [o['name'] for o in obs][:400],
            'functions_under_contract': proof.get('functions', []),
            'backends': proof.get('backends', {}), 'solver_s': proof.get('solver_s', 0),
            'checker_cmd': 'python3-vt -m pyvc.prove %s' % prop,
            'trusted_base': proof.get('assumptions', []),
            'bounded_parts': proof.get('bounded', []) + [o['name'] for o in undecided],
            'evaluations': ev, 'distinct_nontrivial': sum(r['distinct'] for r in runs),
            'rule': 'concrete runs of the real code against the specification functions (cross-check of the verifier, replay of '
                    'counterexamples; bounded stand-in for undecided obligations only); distinct JSON cases counted',
            'samples': [s for r in runs for s in r['samples']][:3],
            'stats': proof.get('stats', {}),
            'explanation': proof.get('explanation', ''),
        },
        'assumptions': proof.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if code == 1 else 0,
    }, open(os.path.join(evid, prop + '.json'), 'w'), indent=1)
    print('\n'.join(lines))
    sys.stdout.flush()
    sys.exit(code)


if __name__ == '__main__':
    main()
