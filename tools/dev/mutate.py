"""usage: mutate.py gen OUT.json [FILE...]      list mutants of the library (all files or those named)
          mutate.py test OUT.json WORKERS       run the tests on each mutant not tested yet; survivors are marked
          mutate.py check OUT.json WORKERS [ID...]  run the checks that belong to the file on each survivor
Development aid: finds changes that the tests do not see and no check sees.  Works on copies under /tmp/mut."""
import ast, json, os, sys, warnings, subprocess, shutil, threading, queue, time, random
R = '/repo'
warnings.simplefilter('ignore')
PROPS = {
 'utils.py': 'C01 C02 C10 C11 C16 C19 C21 C13', 'io.py': 'C07 C08 C24', 'core.py': 'C09 C10 C11 C21 C07', 'resolve.py': 'C21', 'getter.py': 'C21',
 'scan.py': 'C20', 'primitives/__init__.py': 'C03 C05 C16', 'primitives/_array.py': 'C04', 'primitives/_int.py': 'C03', 'primitives/_float.py': 'C03',
 'primitives/_str.py': 'C03', 'primitives/_bool.py': 'C03', 'primitives/_model.py': 'C05', 'primitives/_time.py': 'C16', 'primitives/_byte.py': 'C16',
 'primitives/_uuid.py': 'C16', 'primitives/_file.py': 'C24', 'primitives/codec.py': 'C17', 'primitives/comm.py': 'C03 C17 C04', 'primitives/render.py': 'C18',
 'scanner/type_reducer.py': 'C10', 'scanner/cycle_detector.py': 'C19', 'scanner/v1_2/upgrade.py': 'C15', 'scanner/v1_2/validate.py': 'C22',
 'scanner/v2_0/validate.py': 'C22', 'scanner/v2_0/merge.py': 'C12', 'scanner/v2_0/aggt.py': 'C23', 'scanner/v2_0/patch_obj.py': 'C14',
 'scanner/v2_0/resolve.py': 'C12 C21 C01', 'scanner/v2_0/norm_ref.py': 'C02', 'scanner/v2_0/assign_parent.py': 'C12 C13', 'scanner/v2_0/yaml.py': 'C13 C21',
 'spec/base.py': 'C12 C13 C01 C20', 'spec/v2_0/objects.py': 'C06 C13 C05', 'spec/v2_0/parser.py': 'C13', 'spec/v1_2/objects.py': 'C15 C13', 'spec/v1_2/parser.py': 'C13 C15',
}
SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
def mutants(rel):
    src = open(os.path.join(R, 'pyswagger', rel)).read()
    lines = src.split('\n'); offs = [0]
    for l in lines: offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    def span(n): return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    def text(n): s, e = span(n); return b[s:e].decode()
    out = []
    def add(n, new, what):
        s, e = span(n)
        if b[s:e].decode() != new: out.append({'file': rel, 's': s, 'e': e, 'new': new, 'line': n.lineno, 'what': what, 'old': b[s:e].decode()})
    def skip(n):
        t = text(n)
        return t.startswith('logger.') or 'raise' in t.split('\n')[0] and False
    doc = set()
    for n in ast.walk(ast.parse(src)):
        for f in ('body', 'orelse', 'finalbody'):
            for st in getattr(n, f, []) if isinstance(getattr(n, f, None), list) else []:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant): doc.add(id(st.value)); continue
                if isinstance(st, ast.Expr) and text(st).startswith('logger.'): doc.update(id(x) for x in ast.walk(st)); continue
                if isinstance(st, (ast.Raise,)): doc.update(id(x) for x in ast.walk(st)); add(st, 'pass', 'drop raise'); continue
                if isinstance(n, ast.Module) or isinstance(n, ast.ClassDef): continue
                if isinstance(st, (ast.Expr, ast.AugAssign, ast.Delete)): add(st, 'pass', 'drop statement')
                elif isinstance(st, ast.Assign) and isinstance(st.targets[0], (ast.Subscript, ast.Attribute)): add(st, 'pass', 'drop statement')
                elif isinstance(st, (ast.Continue, ast.Break)): add(st, 'pass', 'drop statement'); add(st, 'break' if isinstance(st, ast.Continue) else 'continue', 'swap')
                elif isinstance(st, ast.Return) and st.value is not None: add(st, 'return None', 'return none')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, '(not (%s))' % text(n.test), 'negate')
            if isinstance(n, ast.If) and not n.orelse: add(n.test, 'True', 'always')
            if isinstance(n, (ast.If, ast.IfExp)): add(n.test, 'False', 'never')
    for n in ast.walk(ast.parse(src)):
        pass
    tree = ast.parse(src)
    dead = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or text(n).startswith('logger.')) or isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__'):
            dead.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in dead: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, '%s %s %s' % (text(n.left), SWAP[type(n.ops[0])], text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + j.join('(' + text(v) + ')' for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                vs = [text(v) for k, v in enumerate(n.values) if k != i]
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(' + v + ')' for v in vs) + ')', 'drop operand %d' % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): add(n, '(%s)' % text(n.operand), 'drop not')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False: add(n, str(not v), 'const')
            elif v is None: pass
            elif isinstance(v, int): add(n, str(v + 1), 'const'); v and add(n, str(v - 1), 'const')
            elif isinstance(v, str) and text(n)[0] in '\'"' : add(n, repr(v + 'x') if v else repr('x'), 'const')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            add(n, text(n.left) + (' - ' if isinstance(n.op, ast.Add) else ' + ') + text(n.right), 'arith'); 
            if isinstance(n.op, ast.Add): add(n, text(n.left), 'drop right'); add(n, text(n.right), 'drop left')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and not isinstance(f.value, ast.Name) or isinstance(f, ast.Attribute) and f.attr in ('lower', 'strip', 'split', 'copy', 'rstrip', 'upper', 'encode', 'decode', 'replace'): add(n, text(f.value), 'drop call')
            if isinstance(f, ast.Name) and f.id in ('final', 'deref', 'list', 'dict', 'int', 'str', 'set', 'sorted', 'float') and n.args: add(n, text(n.args[0]), 'drop call')
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 0:
                    t = text(n); s0, _ = span(n); ks, ke = span(k)
                    nt = b[s0:ks].decode().rstrip().rstrip(',') + b[ke:span(n)[1]].decode()
                    add(n, nt, 'drop keyword ' + k.arg)
        elif isinstance(n, ast.Slice) or isinstance(n, ast.ListComp) and n.generators[0].ifs:
            if isinstance(n, ast.ListComp): add(n.generators[0].ifs[0], 'True', 'always')
    good, seen = [], set()
    for m in out:
        new = b[:m['s']] + m['new'].encode() + b[m['e']:]
        if new in seen: continue
        seen.add(new)
        try: compile(new, rel, 'exec')
        except SyntaxError: continue
        good.append(m)
    return good
def apply(root, m):
    p = os.path.join(root, 'pyswagger', m['file']); b = open(os.path.join(R, 'pyswagger', m['file']), 'rb').read()
    open(p, 'wb').write(b[:m['s']] + m['new'].encode() + b[m['e']:])
def restore(root, m):
    shutil.copy(os.path.join(R, 'pyswagger', m['file']), os.path.join(root, 'pyswagger', m['file']))
def pool(n, items, fn):
    q = queue.Queue()
    for i in items: q.put(i)
    def work(k):
        root = '/tmp/mut/%d' % k
        shutil.rmtree(root, ignore_errors=True); shutil.copytree(R, root, ignore=shutil.ignore_patterns('.git'))
        if fn.__name__ == 'check':
            shutil.rmtree(root + '.verif', ignore_errors=True); shutil.copytree('/verif', root + '.verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            apply(root, m)
            try: fn(root, m)
            finally: restore(root, m)
        shutil.rmtree(root, ignore_errors=True); shutil.rmtree(root + '.verif', ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
def main():
    cmd, out = sys.argv[1:3]
    if cmd == 'gen':
        ms = []
        for f in sys.argv[3:] or sorted(PROPS): ms += mutants(f)
        if os.environ.get('SAMPLE'): ms = random.Random(int(os.environ.get('SEED', '1'))).sample(ms, int(os.environ['SAMPLE']))
        for i, m in enumerate(ms): m['id'] = i
        json.dump(ms, open(out, 'w')); print(len(ms)); return
    ms = json.load(open(out)); lock = threading.Lock(); n = int(sys.argv[3]); base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    done = [0]
    def save():
        with lock:
            done[0] += 1
            if done[0] % 10 == 0: json.dump(ms, open(out + '.tmp', 'w')); os.rename(out + '.tmp', out)
    def test(root, m):
        x = root + '.xml'
        env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        try: r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-W', 'ignore', '-p', 'no:cacheprovider', '--timeout=100', 'pyswagger/tests'] + DESEL, cwd=root, env=env, capture_output=True, text=True, timeout=200); m['tests'] = r.returncode == 0
        except subprocess.TimeoutExpired: m['tests'] = False
        save()
    def check(root, m):
        env = dict(os.environ, VERIF_REPO=root, VERIF_SEED='1', VERIF_TIER='quick')
        m['checks'] = {}
        for p in PROPS[m['file']].split():
            r = subprocess.run(['python3-vt', root + '.verif/tools/dev/natq.py', p], env=env, capture_output=True, text=True)
            if r.returncode == 1:
                m['checks'][p] = 1; m['how'] = ['native ' + r.stdout[:300]]; break
        else: p = None
        for p in PROPS[m['file']].split() if p is None and FULL else []:
            r = subprocess.run(['python3-vt', root + '.verif/check.py', p], env=env, capture_output=True, text=True)
            m['checks'][p] = r.returncode
            if r.returncode == 1:
                m['how'] = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')][:1]; break
        save()
    DESEL = []; FULL = os.environ.get('FULL')
    if cmd == 'test':
        # tests that do not pass reliably are left out
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-W', 'ignore', '-p', 'no:cacheprovider', 'pyswagger/tests'], cwd=R, env=dict(os.environ, PYTHONPATH=R, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'), capture_output=True, text=True)
        for l in r.stdout.split('\n'):
            if l.startswith(('FAILED', 'ERROR')): DESEL.append('--deselect=' + l.split()[1])
        print('deselected', DESEL, flush=True)
        pool(n, [m for m in ms if 'tests' not in m], test)
    else:
        ids = set(map(int, sys.argv[4:]))
        pool(n, [m for m in ms if (m['id'] in ids if ids else m.get('tests') and 'checks' not in m)], check)
    json.dump(ms, open(out, 'w'))
main()
