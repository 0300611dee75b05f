"""usage: refac.py FILE.py WORKERS [ID...]: FILE.py defines R, a list of (id, property, [(file, old, new)]): edits that keep the
behaviour.  Tests and checks must stay quiet on each (on copies under /tmp/mut)."""
import sys, os, subprocess, shutil, runpy, threading, queue
R = runpy.run_path(sys.argv[1])['R']; n = int(sys.argv[2]); only = sys.argv[3:]
q = queue.Queue()
for r in R:
    if not only or r[0] in only: q.put(r)
lock = threading.Lock()
def work(k):
    root = os.environ.get('MUT', '/tmp/mut') + '/r%d' % k
    shutil.rmtree(root + '.verif', ignore_errors=True); shutil.copytree('/verif', root + '.verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
    while True:
        try: i, props, edits = q.get_nowait()
        except queue.Empty: break
        shutil.rmtree(root, ignore_errors=True); shutil.copytree('/repo', root, ignore=shutil.ignore_patterns('.git'))
        for f, old, new in edits:
            s = open(os.path.join(root, f)).read(); assert s.count(old) == 1, (i, f, s.count(old), old)
            open(os.path.join(root, f), 'w').write(s.replace(old, new))
        env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-W', 'ignore', '-p', 'no:cacheprovider', 'pyswagger/tests'], cwd=root, env=env, capture_output=True, text=True)
        out = [i, t.stdout.strip().split('\n')[-1]]
        for p in props.split():
            c = subprocess.run(['python3-vt', root + '.verif/check.py', p], env=dict(os.environ, VERIF_REPO=root, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
            out.append('%s exit %d %s' % (p, c.returncode, c.stdout.strip()[-1500:]))
        with lock: print('\n  '.join(out), flush=True)
    shutil.rmtree(root, ignore_errors=True); shutil.rmtree(root + '.verif', ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
