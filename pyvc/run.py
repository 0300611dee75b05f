"""Proof driver: python3-vt -m pyvc.run JOB.json OUT.json   (or: MODULE HARNESS BUDGET -)

JOB: {"modules": [...], "prop": id or null, "only": [...] or null, "budget": s, "jobs": n}

The program and the contracts are loaded (transformed) once; every harness is
then proved in a forked process of its own."""
import json
import os
import sys
import time
import signal
import tempfile


def load(modules, cdir=None):
    sys.setrecursionlimit(6000)
    import warnings
    warnings.simplefilter('ignore')
    from . import mods, vcsym
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    cdir = cdir or os.path.join(here, 'contracts')
    L = mods.Loader(extra={n[:-3]: os.path.join(cdir, n) for n in os.listdir(cdir) if n.endswith('.py')})
    errs = []
    for name in modules:
        try:
            L.load(name)
        except BaseException as e:
            import traceback
            errs.append(blank(name, 'load-error', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-3000:]))
    return vcsym, errs


def blank(hid, status, why, trace=''):
    return {'id': hid, 'status': status, 'why': why, 'trace': trace, 'failures': [], 'stats': {}, 'labels': {}, 'trusted': [],
            'called': [], 'covers': {}, 'wall': 0, 'ufns': [], 'paths': 0}


def main(argv):
    if len(argv) == 4:
        name, hid, budget, out = argv
        vcsym, errs = load([name])
        res = errs or [vcsym.run_harness(h, float(budget)) for h in vcsym.REG if hid in ('*', h.id)]
        for r in res:
            print(json.dumps(r, indent=1))
        return
    job = json.load(open(argv[0]))
    t0 = time.time()
    vcsym, res = load(job['modules'], job.get('cdir'))
    tload = time.time() - t0
    todo = [h for h in vcsym.REG if (not job.get('prop') or h.prop == job['prop']) and (not job.get('only') or h.id in job['only'])]
    known = []
    for h in todo:
        if h.opts.get('bounded'):
            r = blank(h.id, 'bounded', str(h.opts['bounded']))
            res.append(r)
    todo = [h for h in todo if not h.opts.get('bounded')]
    todo.sort(key=lambda h: -h.opts.get('cost', 1))
    tmp = tempfile.mkdtemp(prefix='pyvc')
    run = {}
    queue = list(todo)
    while queue or run:
        while queue and len(run) < job.get('jobs', 8):
            h = queue.pop(0)
            out = os.path.join(tmp, h.id + '.json')
            budget = float(job['budget']) * h.opts.get('slow', 1)
            pid = os.fork()
            if pid == 0:
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    try:
                        r = vcsym.run_harness(h, budget)
                    except BaseException as e:
                        import traceback
                        r = blank(h.id, 'engine-error', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-2000:])
                    with open(out, 'w') as f:
                        json.dump(r, f)
                finally:
                    os._exit(0)
            run[pid] = (h, out, time.time() + budget * 1.4 + 30)
        time.sleep(0.02)
        for pid in list(run):
            h, out, dl = run[pid]
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p == 0:
                if time.time() < dl:
                    continue
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            del run[pid]
            try:
                with open(out) as f:
                    res.append(json.load(f))
            except (IOError, ValueError):
                res.append(blank(h.id, 'budget' if p == 0 else 'engine-error', 'prover process ended without a result'))
            if os.path.exists(out):
                os.unlink(out)
    os.rmdir(tmp)
    sizes = {h.id: h.opts.get('sizes') for h in vcsym.REG}
    for r in res:
        r['load_s'] = round(tload, 2)
        r['sizes'] = sizes.get(r['id'])
    with open(argv[1], 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main, args=(sys.argv[1:],))
    t.start()
    t.join()
