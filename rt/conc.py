"""Native runner: /opt/venv/bin/python conc.py JOB.json OUT.json

JOB: {"modules": [...], "prop": id or null, "seed": int, "seconds": per harness, "cases": max per harness,
      "only": [harness ids] or null, "replay": {harness id: [trees]}}"""
import json
import logging
import os
import random
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'contracts'))
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
import warnings
warnings.simplefilter('ignore')
import vc


def run_one(h, tree, salt, caught=True):
    """('ok'|'skip'|'bad', label, note)"""
    vc.ST.salt = salt
    vc.ST.undo = []
    random.seed(salt)
    try:
        try:
            try:
                args = dict((n, s.value(tree[n])) for n, s in h.inputs.items())
            except vc.Skip:
                return 'skip', '', ''
            h.fn(**args)
        finally:
            for u in reversed(vc.ST.undo):
                u()
    except vc.Skip:
        return 'skip', '', ''
    except vc.Violation as e:
        return 'bad', e.label, e.note
    except Exception as e:
        tb = traceback.format_exc()
        return 'bad', 'no-unexpected-exception', '%s: %s\n%s' % (type(e).__name__, e, tb[-1500:])
    return 'ok', '', ''


def smaller(t):
    """candidate simplifications of a tree"""
    if isinstance(t, list):
        for i in range(len(t)):
            yield t[:i] + t[i + 1:]
        for i in range(len(t)):
            for x in smaller(t[i]):
                yield t[:i] + [x] + t[i + 1:]
    elif isinstance(t, dict):
        if 'd' in t:
            for i in range(len(t['d'])):
                yield {'d': t['d'][:i] + t['d'][i + 1:]}
            for i, (k, v) in enumerate(t['d']):
                for x in smaller(v):
                    yield {'d': t['d'][:i] + [[k, x]] + t['d'][i + 1:]}
        elif 'u' in t:
            for x in smaller(t['v']):
                yield {'u': t['u'], 'v': x}
        elif 'k' in t:
            for i in range(len(t['a'])):
                for x in smaller(t['a'][i]):
                    yield {'a': t['a'][:i] + [x] + t['a'][i + 1:], 'k': t['k']}
            for k in t['k']:
                for x in smaller(t['k'][k]):
                    d = dict(t['k'])
                    d[k] = x
                    yield {'a': t['a'], 'k': d}
    elif isinstance(t, str):
        if len(t) > 1:
            yield t[:len(t) // 2]
            yield t[1:]
            yield t[:-1]
        if t not in ('', 'a'):
            yield ''
            yield 'a'
    elif isinstance(t, bool) or t is None:
        return
    elif isinstance(t, int) and t not in (0, 1):
        yield 0
        yield 1


def shrink(h, tree, salt, label, limit=1.5):
    t0 = time.time()
    n = 0
    go = True
    while go and time.time() - t0 < limit:
        go = False
        for k in sorted(tree):
            for x in smaller(tree[k]):
                if time.time() - t0 > limit:
                    break
                t2 = dict(tree)
                t2[k] = x
                try:
                    if not h.inputs[k].ok(x):
                        continue
                    st, lb, _ = run_one(h, t2, salt)
                except (KeyError, IndexError, TypeError):
                    continue
                if st == 'bad' and lb == label:
                    tree = t2
                    go = True
                    n += 1
                    break
            if go:
                break
    return tree


def main():
    job = json.load(open(sys.argv[1]))
    res = []
    for m in job['modules']:
        try:
            __import__(m)
        except Exception:
            res.append({'id': m, 'error': traceback.format_exc()[-3000:], 'module': m})
    import mine
    import pyswagger
    anchors = {}
    for l in open(os.path.join(os.path.dirname(HERE), 'properties.jsonl')):
        p = json.loads(l)
        anchors[p['id']] = set(p['anchors']['files'])
    root = os.path.dirname(os.path.abspath(pyswagger.__file__))
    pools = {}
    sh = job.get('shard') or [0, 1]
    todo = [h for h in vc.REG if not job.get('prop') or h.prop == job['prop']]
    todo = [h for h in todo if not job.get('only') or h.id in job['only']]
    for h in todo[sh[0]::sh[1]]:
        vc.ST.covers = {}
        vc.ST.ensures = 0
        if h.prop not in pools:
            pools[h.prop] = mine.mined(root, anchors.get(h.prop, ()))
        vc.MINED = pools[h.prop]
        r = {'id': h.id, 'module': h.fn.__module__, 'cases': 0, 'skipped': 0, 'distinct': 0, 'violations': [], 'samples': [], 'replayed': []}
        res.append(r)
        seen = set()

        def bad(tree, salt, lb, note, src):
            tree = shrink(h, tree, salt, lb)
            st, lb2, note2 = run_one(h, tree, salt)
            if st == 'bad':
                note = note2
            r['violations'].append({'label': lb, 'note': note, 'tree': tree, 'salt': salt, 'source': src})

        for i, t in enumerate((job.get('replay') or {}).get(h.id, [])):
            for salt in (t.get('salt'),) if isinstance(t, dict) and 'salt' in t else range(4):
                tr = t['tree'] if isinstance(t, dict) and 'salt' in t else t
                try:
                    st, lb, note = run_one(h, tr, salt)
                except (KeyError, IndexError, TypeError) as e:
                    st, lb, note = 'unusable', '', '%s: %s' % (type(e).__name__, e)
                r['replayed'].append([i, st, lb, note])
                if st == 'bad':
                    bad(tr, salt, lb, note, 'counter-model')
                    break
        for t in h.opts.get('examples', ()):
            st, lb, note = run_one(h, t, 1)
            r['cases'] += 1
            if st == 'bad':
                bad(t, 1, lb, note, 'example')
        t0 = time.time()
        rng = random.Random('%s:%s' % (job['seed'], h.id))
        n = job['cases'] * h.opts.get('weight', 1)
        lim = job['seconds'] * h.opts.get('weight', 1)
        while r['cases'] < n and time.time() - t0 < lim and len(r['violations']) < 12:
            tree = dict((k, h.inputs[k].gen(rng, 0)) for k in sorted(h.inputs))
            salt = rng.randint(0, 10 ** 9)
            r['cases'] += 1
            st, lb, note = run_one(h, tree, salt)
            if st == 'skip':
                r['skipped'] += 1
                continue
            key = json.dumps(tree, sort_keys=True)
            if key not in seen:
                seen.add(key)
                if len(r['samples']) < 2:
                    r['samples'].append(key[:400])
            if st == 'bad' and sum(1 for v in r['violations'] if v['label'] == lb) < 4:
                bad(tree, salt, lb, note, 'search')
            if not h.inputs and r['cases'] >= h.opts.get('repeat', 1):
                break
        r['distinct'] = len(seen)
        r['covers'] = vc.ST.covers
        r['ensures'] = vc.ST.ensures
    with open(sys.argv[2], 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    sys.setrecursionlimit(3000)
    main()
