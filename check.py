"""python3-vt /verif/check.py <property id> [--replay FILE]

Decides one property: every harness of the property (contracts/<id>*.py) is
proved over the source of /repo as it is now (pyvc), and run natively (PyPy)
on counter-models and on generated inputs.  See DESIGN.md, "Verdicts"."""
import glob
import json
import os
import subprocess
import sys
import tempfile
import time
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
VT = sys.executable


def native(job, tmp, name):
    jf, of = os.path.join(tmp, name + '.job'), os.path.join(tmp, name + '.out')
    with open(jf, 'w') as f:
        json.dump(job, f)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(job['seed']), TZ='UTC')
    p = subprocess.Popen([PYPY, os.path.join(HERE, 'rt', 'conc.py'), jf, of], env=env, cwd=tmp, stdout=subprocess.DEVNULL,
                         stderr=open(of + '.err', 'w'))
    return p, of


def native_result(p, of, limit):
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None, 'native runner timed out'
    try:
        with open(of) as f:
            return json.load(f), ''
    except (IOError, ValueError):
        return None, open(of + '.err').read()[-3000:]


def natives(job, tmp, name, limit, shards=4):
    ps = [native(dict(job, shard=[i, shards]), tmp, '%s.%d' % (name, i)) for i in range(shards)]
    res, errs = [], []
    t0 = time.time()
    for p, of in ps:
        r, e = native_result(p, of, max(1, limit - (time.time() - t0)))
        for x in r or []:
            if 'error' not in x or not any(y['id'] == x['id'] for y in res):
                res.append(x)
        if r is None:
            errs.append(e or 'no result')
    return res, '; '.join(errs)


STALE = ("module '", 'unexpected keyword argument', 'positional argument', 'cannot import name', 'No module named')


def stale(v):
    """the contract names something that is not there (any more): not a verdict about behaviour"""
    n = v.get('note', '')
    if v['label'] != 'no-unexpected-exception':
        return False
    head = n.split('\n')[0]
    if head.startswith('NotHere'):
        return True
    if not head.startswith(('AttributeError', 'TypeError', 'ImportError', 'ModuleNotFoundError')):
        return False
    files = [l for l in n.split('\n') if l.strip().startswith('File ')]
    return bool(files) and '/contracts/' in files[-1] and any(s in head for s in STALE)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        return decide(pid, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, tier, seed, t0, tmp):
    thorough = tier == 'thorough'
    modules = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, 'contracts', pid.lower() + '*.py')))
    cfg = dict(seed=seed, modules=modules, prop=pid)
    if '--replay' in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        p, of = native(dict(cfg, seconds=0, cases=0, only=[rp['harness']], replay={rp['harness']: [{'tree': rp['tree'], 'salt': rp.get('salt', 0)}]}), tmp, 'r')
        res, err = native_result(p, of, 120)
        print(json.dumps(res, indent=1) if res else err)
        return 1 if res and any(r.get('violations') for r in res) else 0
    pj, po = os.path.join(tmp, 'proof.job'), os.path.join(tmp, 'proof.out')
    with open(pj, 'w') as f:
        json.dump(dict(modules=modules, prop=pid, budget=600 if thorough else 45, jobs=8), f)
    prover = subprocess.Popen([VT, '-m', 'pyvc.run', pj, po], cwd=HERE, stdout=subprocess.DEVNULL, stderr=open(po + '.err', 'w'),
                              env=dict(os.environ, PYTHONHASHSEED='0', VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1'))
    njob = dict(cfg, seconds=40 if thorough else 5, cases=200000 if thorough else 6000)
    nres, nerr = natives(njob, tmp, 'n1', 700)
    prover_killed = False
    try:
        prover.wait(timeout=3400 if thorough else 560)
    except subprocess.TimeoutExpired:
        prover.kill()
        prover_killed = True
    try:
        with open(po) as f:
            pres = json.load(f)
    except (IOError, ValueError):
        pres = []
        perr = open(po + '.err').read()[-2000:]
    else:
        perr = ''
    nby = {r['id']: r for r in nres}
    # counter-models are replayed on the real code, and the search repeated with another seed
    trees = {}
    for r in pres:
        if r['status'] in ('failed', 'incomplete'):
            ts = [f['tree'] for f in r['failures'] if f.get('tree') and '~error' not in f['tree']]
            if not nby.get(r['id'], {}).get('violations'):
                trees[r['id']] = ts
    if trees:
        more, err = natives(dict(cfg, seed=seed + 7919, seconds=60 if thorough else 20, cases=400000 if thorough else 60000, only=sorted(trees), replay=trees), tmp, 'n2', 250)
        for r in more:
            if 'error' in r:
                continue
            old = nby.setdefault(r['id'], r)
            if old is not r:
                old['violations'] += r['violations']
                old['cases'] += r['cases']
                old['distinct'] += r['distinct']
                old['replayed'] += r['replayed']
    return report(pid, tier, seed, t0, modules, pres, perr, nby, nerr, prover_killed)


def report(pid, tier, seed, t0, modules, pres, perr, nby, nerr, prover_killed):
    lines, assumptions = [], []
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == pid]
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + '-*.json')):
        os.unlink(f)
    viol, seen_known = [], []
    notes = []
    mod_of = {}
    for hid, r in sorted(nby.items()):
        mod_of[hid] = r.get('module')
        if 'error' in r:
            notes.append('contract module %s did not load natively: %s' % (hid, r['error'][-400:]))
            continue
        for v in r['violations']:
            if stale(v):
                notes.append('%s: contract no longer matches the code: %s' % (hid, v['note'].split('\n')[0]))
                continue
            k = [k for k in known if k['harness'] == hid and k['label'] == v['label']]
            if k:
                if k[0] not in seen_known:
                    seen_known.append(k[0])
                continue
            if not any(h == hid and w['label'] == v['label'] for h, w, _ in viol):
                viol.append((hid, v, True))
    pby = {r['id']: r for r in pres}
    proved, bounded, undecided, at_sizes = [], [], [], []
    ob = dis = 0
    for hid, r in sorted(pby.items()):
        st = r['status']
        if st == 'proved' and r.get('sizes'):
            at_sizes.append({'harness': hid, 'all_values_for': r['sizes']})
        elif st == 'proved':
            proved.append(hid)
        elif st == 'bounded':
            bounded.append({'harness': hid, 'reason': r['why']})
            continue
        elif st == 'failed':
            d = [f for f in r['failures'] if f['status'] == 'sat']
            real = [f for f in d if not any(k['harness'] == hid and k['label'] == f['label'] for k in known)]
            if not real:
                for f in d:
                    k = [k for k in known if k['harness'] == hid and k['label'] == f['label']][0]
                    if k not in seen_known:
                        seen_known.append(k)
            elif not any(h == hid for h, _, _ in viol):
                fake = {'label': real[0]['label'], 'note': real[0].get('note', '')}
                if stale(fake):
                    notes.append('%s: contract no longer matches the code: %s' % (hid, fake['note'].split('\n')[0]))
                    undecided.append({'harness': hid, 'status': 'stale', 'why': fake['note'].split('\n')[0]})
                else:
                    viol.append((hid, dict(fake, tree=real[0].get('tree'), verifier=r), False))
        else:
            undecided.append({'harness': hid, 'status': st, 'why': r['why'], 'open': [f['label'] for f in r['failures']]})
        ob += r['stats'].get('obligations', 0)
        dis += r['stats'].get('discharged', 0)
    for hid, v, concrete in sorted(viol, key=lambda x: not x[2]):
        path = os.path.join(rdir, '%s-%s.json' % (pid, hid))
        if os.path.exists(path):
            path = os.path.join(rdir, '%s-%s-%d.json' % (pid, hid, len(lines)))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'harness': hid, 'module': mod_of.get(hid), 'obligation': v['label'], 'tree': v.get('tree'), 'salt': v.get('salt'),
                       'note': v.get('note'), 'source': v.get('source'), 'verifier': v.get('verifier') or pby.get(hid),
                       'replay_cmd': 'python3-vt /verif/check.py %s --replay %s' % (pid, path)}, f, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if concrete else ' no-failing-input-found'))
    for k in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    cases = sum(r.get('cases', 0) for r in nby.values())
    solver_s = sum(r['stats'].get('solver_s', 0) for r in pres)
    cov = {
        'obligations': ob, 'discharged': dis,
        'checker_cmd': 'python3-vt -m pyvc.run (contracts %s); back ends z3 5.3 API, cvc5 1.1.2 on unknown' % ', '.join(modules),
        'trusted_base': sorted(set(t for r in pres for t in r['trusted'])) + ['pyvc engine (transformer, symbolic runtime), z3, cvc5'],
        'harnesses_proved': proved,
        'harnesses_proved_for_all_values_at_bounded_sizes_only': at_sizes,
        'harnesses_bounded': bounded,
        'harnesses_undecided_this_run_bounded_instead': undecided,
        'functions_verified': sorted(set('%s:%s' % tuple(a) for r in pres if r['status'] == 'proved' for a in r['called'])),
        'paths': sum(r['paths'] for r in pres),
        'solver_s': round(solver_s, 2),
        'by_backend': {'z3': dis - sum(r['stats'].get('cvc5', 0) for r in pres), 'cvc5': sum(r['stats'].get('cvc5', 0) for r in pres)},
        'obligation_labels': {r['id']: r['labels'] for r in pres if r['labels']},
        'evaluations': cases,
        'distinct_nontrivial': sum(r.get('distinct', 0) for r in nby.values()),
        'rule': 'native runs of the same contracts on generated inputs; non-trivial: the assumptions of the contract held and the input tree is new',
        'samples': [{'harness': h, 'input': s} for h, r in sorted(nby.items()) for s in r.get('samples', [])[:1]][:12],
        'native_by_harness': {h: {'cases': r.get('cases'), 'skipped': r.get('skipped'), 'distinct': r.get('distinct')} for h, r in sorted(nby.items())},
        'notes': notes + (['prover stopped at its time limit'] if prover_killed else []) + ([perr] if perr else []) + ([nerr] if nerr else []),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level_of(pid), 'coverage': cov,
          'assumptions': ASSUME + sorted(set('trusted: ' + t for r in pres for t in r['trusted'])) + sorted(set('arbitrary deterministic function: ' + u for r in pres for u in r['ufns'])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(lines)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for n in notes:
        print('note: %s' % n)
    for l in lines:
        print(l)
    print('%s: %d harnesses proved (%d/%d obligations), %d at bounded sizes, %d bounded, %d undecided, %d native runs, %.1f s' % (
        pid, len(proved), dis, ob, len(at_sizes), len(bounded), len(undecided), cases, time.time() - t0))
    for u in undecided:
        print('  undecided (bounded instead): %s %s %s' % (u['harness'], u['status'], u.get('why', '')))
    if lines:
        return 1
    if not nby and not proved and not at_sizes:
        print('check could not run: %s %s' % (nerr, perr))
        return 2
    return 0


ASSUME = ['floats as reals, ints as mathematical integers', 'str as SMT strings (code points up to 0x2FFFF)',
          'weak references stay alive', 'no concurrent mutation', 'dict iteration order abstracted (any order)']


def level_of(pid):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == pid:
                return c['level']
    except (IOError, ValueError, KeyError):
        pass
    return 'proof'


if __name__ == '__main__':
    sys.exit(main())
