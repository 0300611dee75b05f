"""usage: mkbug.py FILE.py [ID...]: FILE.py defines BUGS, a list of dicts id, prop, edits [(file, old, new)], demo, needs, breaks.
Plants each in /repo, runs tests, demo and check, writes /verif/seeded/ID, undoes it."""
import sys, os, json, subprocess, runpy
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
bugs = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
assert not sh('git -C /repo status --short').stdout.strip()
for b in bugs:
    if only and b['id'] not in only: continue
    d = '/verif/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    out = [b['id'], b['prop']]
    r = sh('bash %s/demo.sh' % d, cwd=R); out.append('clean demo %d' % r.returncode)
    if r.returncode: print(r.stdout[-500:], r.stderr[-800:])
    try:
        for f, old, new in b['edits']:
            p = os.path.join(R, f); s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        out.append('tests ' + sh('/verif/tools/dev/tst').stdout.strip())
        r = sh('bash %s/demo.sh' % d, cwd=R); out.append('planted demo %d %s' % (r.returncode, r.stderr.strip().split('\n')[-1][:150]))
        if not b.get('nocheck'):
            r = sh('VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py %s' % b['prop'], cwd='/verif')
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            out.append('check %d %s' % (r.returncode, v[:2]))
    finally:
        sh('git -C /repo checkout -- .')
    print(' | '.join(out), flush=True)
