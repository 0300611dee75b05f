"""Soundness self-test of pyvc: every harness of selftest/neg.py named *_ok must be proved, every other one must not be."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
job = '/tmp/selftest.job'
json.dump({'modules': ['neg'], 'prop': None, 'only': None, 'budget': 60, 'jobs': 8, 'cdir': os.path.join(H, 'selftest')}, open(job, 'w'))
subprocess.check_call([sys.executable, '-m', 'pyvc.run', job, '/tmp/selftest.out'], cwd=H, env=dict(os.environ, PYTHONHASHSEED='0'))
bad = 0
for r in json.load(open('/tmp/selftest.out')):
    want = r['id'].endswith('_ok')
    got = r['status'] == 'proved'
    if want != got:
        bad += 1
    print('%-8s %-12s %s' % (r['id'], r['status'], '' if want == got else '<-- UNEXPECTED ' + r.get('why', '')[:200]))
sys.exit(1 if bad else 0)
